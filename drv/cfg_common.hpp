#pragma once
#include <redGrapes/scheduler/tag_match_property.hpp>
#include <redGrapes/task/property/label.hpp>
enum VTags { VT_A, VT_B, VT_C };
#define REDGRAPES_TASK_PROPERTIES redGrapes::LabelProperty, redGrapes::scheduler::SchedulingTagProperties<VTags>
template<>
struct fmt::formatter<VTags>
{
    constexpr auto parse(format_parse_context& ctx) { return ctx.begin(); }
    template<typename C> auto format(VTags const& t, C& ctx) { return fmt::format_to(ctx.out(), "{}", (int) t); }
};
