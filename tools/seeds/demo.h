#pragma once
#include <redGrapes/redGrapes.hpp>
#include <redGrapes/resource/ioresource.hpp>
#include <redGrapes/resource/fieldresource.hpp>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <thread>
#include <unistd.h>
namespace rg = redGrapes;
static inline void ms(int n) { std::this_thread::sleep_for(std::chrono::milliseconds(n)); }
static inline void fail(char const* what) { std::printf("FAIL: %s\n", what); std::fflush(stdout); _exit(1); }
#define EXPECT(c) do { if(!(c)) fail(#c); } while(0)
// waits at most `n` ms for a condition
template<typename F> bool within(int n, F f) { for(int i = 0; i < n; ++i) { if(f()) return true; ms(1); } return f(); }
static inline void quiet() { spdlog::set_level(spdlog::level::off); }
