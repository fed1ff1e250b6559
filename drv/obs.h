// Observation helpers; compiled without instrumentation, so each call is atomic for the controlled scheduler.
#pragma once
#include <stdint.h>
struct Cell { int writer; int adds; };
struct Acc { int r, mode; long lo0, hi0, lo1, hi1; };   // mode 0 write 1 read 2 aadd 3 amul
extern "C" {
// executes the data effect of task `tid`: reads all cells it may read, then writes/updates; logs the Start event
void obs_start(int tid, const Acc* a, int na, Cell** base, const long* ext0, const long* ext1,
               int depth, const int* bt, int nbt);
int obs_cas(int* p, int from, int to);    // atomic for the controlled scheduler
void obs_set(int* p, int v);
int obs_get(int* p);
int obs_inc(int* p);                      // returns the value before
void obs_end(int tid);
void obs_dtor(int tid);
void obs_resume(int tid, int ev, int depth, const int* bt, int nbt);
}
