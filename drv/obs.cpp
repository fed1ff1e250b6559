#include "obs.h"
#include "../rt/vsched.h"
#include <string>
#include <cstdio>
static void ilist(std::string& s, const int* p, int n)
{
    s += "[";
    for(int i = 0; i < n; ++i) { if(i) s += ","; s += std::to_string(p[i]); }
    s += "]";
}
extern "C" void obs_start(int tid, const Acc* a, int na, Cell** base, const long* e0, const long* e1,
                          int depth, const int* bt, int nbt)
{
    std::string s = "[\"Start\"," + std::to_string(tid) + ",[";
    bool first = true;
    for(int k = 0; k < na; ++k)
    {
        if(a[k].mode > 1) continue;
        Cell* b = base[a[k].r];
        if(!b) continue;
        for(long j = a[k].lo1; j < a[k].hi1 && j < e1[a[k].r]; ++j)
            for(long i = a[k].lo0; i < a[k].hi0 && i < e0[a[k].r]; ++i)
            {
                Cell& c = b[j * e0[a[k].r] + i];
                if(!first) s += ",";
                first = false;
                char buf[96];
                snprintf(buf, sizeof buf, "[%d,%ld,%ld,%d,%d]", a[k].r, i, j, c.writer, c.adds);
                s += buf;
            }
    }
    for(int pass = 0; pass < 2; ++pass)
        for(int k = 0; k < na; ++k)
        {
            Cell* b = base[a[k].r];
            if(!b) continue;
            for(long j = a[k].lo1; j < a[k].hi1 && j < e1[a[k].r]; ++j)
                for(long i = a[k].lo0; i < a[k].hi0 && i < e0[a[k].r]; ++i)
                {
                    Cell& c = b[j * e0[a[k].r] + i];
                    if(pass == 1 && a[k].mode == 0) { c.writer = tid; c.adds = 0; }
                    if(pass == 0 && a[k].mode >= 2) c.adds++;
                }
        }
    s += "],";
    s += std::to_string(depth) + ",";
    ilist(s, bt, nbt);
    s += "]";
    vs_log("%s", s.c_str());
}
extern "C" int obs_cas(int* p, int from, int to) { if(*p != from) return 0; *p = to; return 1; }
extern "C" void obs_set(int* p, int v) { *p = v; }
extern "C" int obs_get(int* p) { return *p; }
extern "C" int obs_inc(int* p) { return (*p)++; }
extern "C" void obs_end(int tid) { vs_log("[\"End\",%d]", tid); }
extern "C" void obs_dtor(int tid) { vs_log("[\"Dtor\",%d]", tid); }
extern "C" void obs_resume(int tid, int ev, int depth, const int* bt, int nbt)
{
    std::string s = "[\"Resume\"," + std::to_string(tid) + "," + std::to_string(ev) + "," + std::to_string(depth) + ",";
    ilist(s, bt, nbt);
    s += "]";
    vs_log("%s", s.c_str());
}
