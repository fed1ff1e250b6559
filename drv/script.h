// Scripts for the component drivers (uninstrumented):
//   P <pid> <arg>...        a new script
//   O <thread> <op> <arg>.. one operation of a thread
//   S <schedule>            run the script under this schedule
#pragma once
#include "runner.h"
#include <string>
#include <vector>
struct SOp { std::string op; std::vector<long> a; };
struct Script
{
    long pid = 0;
    std::vector<std::string> arg;
    std::vector<std::vector<SOp>> th;   // per thread
    long num(size_t i) const { return i < arg.size() ? atol(arg[i].c_str()) : 0; }
    size_t threads() const { return th.size(); }
};
extern Script SC;
int script_main(int argc, char** argv, run_body body);
