// fork-per-run harness shared by all drivers (uninstrumented)
#pragma once
#include "../rt/vsched.h"
#include <string>
#include <vector>
struct RunCfg { vs_config c; long id; };
// runs body(arg) in a forked child under the controlled scheduler; appends one JSON line to `out`
// {"id":..,"rc":..,"steps":..,<hdr>,"ev":[...]}
typedef void (*run_body)(void* arg);
int run_forked(const vs_config& c, run_body body, void* arg, const std::string& hdr, FILE* out);
bool budget_left();
vs_config parse_cfg(const char* s, long* id); // "id seed strategy p_switch n_change est p_plain spurious"
