#include <cstdio>
#include "runner.h"
#include <cstring>
#include <cstdlib>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/personality.h>
// the same program and schedule shall see the same addresses in every process
__attribute__((constructor)) static void fixed_addresses(int, char** argv, char**)
{
    if(getenv("VS_FIXED")) return;
    setenv("VS_FIXED", "1", 1);
    setenv("GLIBC_TUNABLES", "glibc.malloc.arena_max=1:glibc.malloc.tcache_count=0", 1);
    if(personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
}
vs_config parse_cfg(const char* s, long* id)
{
    vs_config c;
    memset(&c, 0, sizeof c);
    unsigned long seed = 0, est = 0;
    sscanf(s, "%ld %lu %d %d %d %lu %d %d", id, &seed, &c.strategy, &c.p_switch, &c.n_change, &est, &c.p_plain, &c.spurious);
    c.seed = seed;
    c.est_steps = est;
    c.stuck_limit = 1500000;
    return c;
}
struct Stat { uint64_t steps, switches; };
static Stat* g_stat;
static void at_exit_stat() { if(g_stat) { g_stat->steps = vs_steps(); g_stat->switches = vs_switches(); } }
extern "C" void run_note_stat() { at_exit_stat(); }
#include <time.h>
// true while the time given to this process (VS_BUDGET seconds) lasts
bool budget_left()
{
    static double end = 0;
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    double now = t.tv_sec + t.tv_nsec * 1e-9;
    if(end == 0) end = now + (getenv("VS_BUDGET") ? atof(getenv("VS_BUDGET")) : 1e9);
    return now < end;
}
int run_forked(const vs_config& c, run_body body, void* arg, const std::string& hdr, FILE* out)
{
    static bool mapped = false;
    if(!mapped)
    {
        vs_map(3u << 20);
        g_stat = (Stat*) mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        mapped = true;
    }
    int st = 0;
    bool hang = false;
    for(int attempt = 0; attempt < 3; ++attempt)
    {
        vs_trace_reset();
        memset(g_stat, 0, sizeof(Stat));
        fflush(out);
        pid_t p = fork();
        if(p == 0)
        {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            struct rlimit rl{6, 6};
            setrlimit(RLIMIT_CPU, &rl);
            rl = {0, 0};
            setrlimit(RLIMIT_CORE, &rl);
            if(!getenv("VS_DEBUG")) { if(!freopen("/dev/null", "w", stdout)) {} if(!freopen("/dev/null", "w", stderr)) {} }
            vs_start(&c);
            body(arg);
            vs_log("[\"Done\"]");
            at_exit_stat();
            vs_finish(0);
        }
        // wall clock watchdog
        hang = false;
        int waited = 0;
        useconds_t nap = 50;
        while(true)
        {
            pid_t r = waitpid(p, &st, WNOHANG);
            if(r == p) break;
            if(r < 0) { st = 0x7f00; break; }
            usleep(nap);
            waited += nap;
            if(nap < 2000) nap *= 2;
            if(waited > 40000000) { kill(p, SIGKILL); waitpid(p, &st, 0); hang = true; break; }
        }
        if(!hang) break;
    }
    int rc = WIFEXITED(st) ? WEXITSTATUS(st) : 100 + WTERMSIG(st);
    size_t len;
    const char* t = vs_trace(&len);
    std::string ev = "[";
    size_t i = 0;
    bool first = true;
    // endless: the beginning is enough
    bool full = len >= (3u << 20);
    if(full) { len = 6000; while(len > 0 && t[len - 1] != '\n') --len; }
    while(i < len)
    {
        const char* e = (const char*) memchr(t + i, '\n', len - i);
        size_t n = e ? (size_t) (e - (t + i)) : len - i;
        if(!first) ev += ",";
        first = false;
        ev.append(t + i, n);
        i += n + 1;
    }
    // the run was ended from outside (resource limit or watchdog) without reporting itself
    if(full) ev += ",[\"Hang\"]";
    if(rc != 0 && rc != 3 && rc != 4) { if(!first) ev += ","; ev += "[\"Killed\"," + std::to_string(rc) + "]"; }
    ev += "]";
    fprintf(out, "{%s,\"rc\":%d,\"steps\":%lu,\"sw\":%lu,\"ev\":%s}\n", hdr.c_str(), rc, g_stat->steps, g_stat->switches, ev.c_str());
    return rc;
}
