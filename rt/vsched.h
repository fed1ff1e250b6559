// Controlled scheduler: public interface for the drivers.
#pragma once
#include <stddef.h>
#include <stdint.h>
extern "C" {
struct vs_config {
    uint64_t seed;
    int strategy;        // 0 random walk, 1 priority based (PCT), 2 sticky random walk
    int p_switch;        // 1/p_switch switch probability (random walk)
    int n_change;        // PCT: number of priority change points
    uint64_t est_steps;  // PCT: estimated length of the run
    int p_plain;         // 1/p_plain: plain accesses to shared memory are scheduling points (0 = never)
    int spurious;        // 1/spurious spurious wake-ups of condition waits (0 = never)
    uint64_t stuck_limit; // scheduling points without a logged event until "Hang"
};
void vs_map(size_t trace_bytes);            // before fork: shared trace buffer
void vs_start(const vs_config* c);          // in the run process: start control, caller becomes thread 0
void vs_stop(void);                         // leave control (all other threads must be gone or blocked)
int  vs_self(void);
int  vs_active(void);
void vs_point(void);                        // explicit scheduling point
void vs_yield(void);                        // give way to another enabled thread
void vs_wait_quiescent(void);               // block until no other thread can run
uint64_t vs_rand(uint64_t n);               // from the run's generator
void vs_log(const char* fmt, ...) __attribute__((format(printf,1,2)));
void vs_finish(int code) __attribute__((noreturn));  // flush and _exit
const char* vs_trace(size_t* len);          // parent side
void vs_trace_reset(void);
uint64_t vs_steps(void);
uint64_t vs_switches(void);
int vs_blocked_threads(void);
int vs_live_threads(void);
void vs_set_pus(int n);
// arenas
void vs_arena_stats(uint64_t* sys_live_bytes, uint64_t* sys_allocs, uint64_t* sys_frees, uint64_t* blocks_live, uint64_t* blocks_bad);
void vs_arena_touchcheck(int on);
// fake system memory: number the region that contains p (-1: none), for the arena driver
long vs_region_of(uintptr_t p, uintptr_t* base, size_t* len, int* live);
extern void (*vs_sys_hook)(int is_free, uintptr_t p, size_t len, size_t reqlen);
extern void (*vs_crash_hook)(void);
void vs_fail_alloc_after(long n);
extern void (*vs_fail_hook)(void);
}
