// Controlled scheduler. Not instrumented. See vsched.h.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "vsched.h"
#include <dlfcn.h>
#include <errno.h>
#include <execinfo.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <atomic>
#include <map>
#include <vector>

#define HIDDEN __attribute__((visibility("hidden")))

// ------------------------------------------------------------------ real functions
typedef int (*fn_mutex)(pthread_mutex_t*);
typedef int (*fn_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
typedef int (*fn_join)(pthread_t, void**);
template<class F> static F real(const char* n) { return (F) dlsym(RTLD_NEXT, n); }
#define REAL(name) ([]{ static auto f = real<decltype(&name)>(#name); return f; }())

static long rawsys(long n, long a, long b, long c, long d, long e, long f)
{
    long ret;
    register long r10 asm("r10") = d;
    register long r8 asm("r8") = e;
    register long r9 asm("r9") = f;
    asm volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return ret;
}

// ------------------------------------------------------------------ state
enum St { RUN, BMUTEX, BCOND, BJOIN, BRW, BFUTEX, BGUARD, BSPIN, QWAIT, DONE };
struct VT {
    int id;
    std::atomic<int> fut;
    St st;
    void* obj;
    bool timed, timedout;
    int64_t prio;
    pthread_t th;
    void* (*fn)(void*);
    void* arg;
    void* sigstk;
    void* ret;
    bool joined;
    // spin detection
    void* la[4];
    int nla;
    int nload;
    uint64_t consecutive;
};
static const int MAXT = 256;
static VT* T[MAXT];
static int NT;
static std::atomic<int> g_on{0};
static __thread int t_self = -1;
static __thread int t_in = 0; // inside runtime: no points
static vs_config C;
static uint64_t rng_s[2];
static uint64_t g_steps, g_switches, g_since;
static int64_t g_lowprio;
static std::vector<uint64_t>* g_change;
static size_t g_nextchange;

static char* g_buf;
static size_t g_cap;
struct Hdr { std::atomic<size_t> len; uint64_t steps, switches; };
static Hdr* g_hdr;
void (*vs_crash_hook)(void);
void (*vs_sys_hook)(int, uintptr_t, size_t, size_t);
void (*vs_fail_hook)(void);

static inline uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
static uint64_t rnd()
{
    uint64_t s0 = rng_s[0], s1 = rng_s[1], r = s0 + s1;
    s1 ^= s0;
    rng_s[0] = rotl(s0, 24) ^ s1 ^ (s1 << 16);
    rng_s[1] = rotl(s1, 37);
    return r;
}
static uint64_t rndn(uint64_t n) { return n ? (uint64_t) (((unsigned __int128) rnd() * n) >> 64) : 0; }
static uint64_t splitmix(uint64_t& x)
{
    uint64_t z = (x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

extern "C" uint64_t vs_rand(uint64_t n) { return rndn(n); }
extern "C" uint64_t vs_steps(void) { return g_steps; }
extern "C" uint64_t vs_switches(void) { return g_switches; }
extern "C" int vs_self(void) { return t_self; }
extern "C" int vs_active(void) { return g_on.load(std::memory_order_relaxed); }

extern "C" void vs_map(size_t n)
{
    g_cap = n;
    g_hdr = (Hdr*) mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    g_buf = (char*) mmap(0, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}
extern "C" const char* vs_trace(size_t* len) { *len = g_hdr->len.load(); return g_buf; }
extern "C" void vs_trace_reset(void) { g_hdr->len = 0; }

static void append(const char* s, size_t n)
{
    size_t l = g_hdr->len.load(std::memory_order_relaxed);
    if(l + n + 1 > g_cap)
    {
        // something goes on and on
        if(l < g_cap - 1) g_hdr->len.store(g_cap, std::memory_order_release);
        _exit(3);
    }
    memcpy(g_buf + l, s, n);
    g_buf[l + n] = '\n';
    g_hdr->len.store(l + n + 1, std::memory_order_release);
}
extern "C" void vs_log(const char* fmt, ...)
{
    int save = t_in;
    t_in = 1;
    char b[4096];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    if(n > (int) sizeof b - 1) n = sizeof b - 1;
    append(b, n);
    g_since = 0;
    t_in = save;
}
extern "C" void vs_finish(int code)
{
    _exit(code);
}

// ------------------------------------------------------------------ token passing
static void fwait(std::atomic<int>* f)
{
    while(f->load(std::memory_order_acquire) == 0)
        rawsys(SYS_futex, (long) f, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
    f->store(0, std::memory_order_relaxed);
}
static void fwake(std::atomic<int>* f)
{
    f->store(1, std::memory_order_release);
    rawsys(SYS_futex, (long) f, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}

static void stuck(const char* kind)
{
    // nobody can run and nobody waits for quiescence
    vs_log("[\"%s\"]", kind);
    if(getenv("VS_DEBUG"))
    {
        for(int i = 0; i < NT; ++i)
            fprintf(stderr, "thread %d state %d obj %p\n", i, T[i]->st, T[i]->obj);
        fprintf(stderr, "steps %lu switches %lu\n", g_steps, g_switches);
        if(getenv("VS_ABORT")) { signal(SIGABRT, SIG_DFL); abort(); }
    }
    _exit(3);
}

static int pick(bool exclude_self)
{
    int en[MAXT], n = 0;
    for(int i = 0; i < NT; ++i)
        if(T[i]->st == RUN && !(exclude_self && i == t_self)) en[n++] = i;
    if(n == 0) return -1;
    if(C.strategy == 1)
    {
        int b = en[0];
        for(int i = 1; i < n; ++i)
            if(T[en[i]]->prio > T[b]->prio) b = en[i];
        return b;
    }
    return en[rndn(n)];
}

static void transfer(int next)
{
    int me = t_self;
    if(next == me) return;
    g_switches++;
    T[next]->consecutive = 0;
    VT* m = T[me];
    fwake(&T[next]->fut);
    fwait(&m->fut);
}

// current thread cannot continue; choose someone else. returns when this thread is scheduled again
static int g_nspin, g_spinround;
static inline void wake_spin();
// spinning is only guessed from repeated loads: give every suspect several more chances before believing it
static bool respin()
{
    if(g_nspin == 0 || g_spinround >= 6) return false;
    int r = ++g_spinround;
    wake_spin();
    g_spinround = r;
    return true;
}
static void block()
{
    VT* m = T[t_self];
    while(true)
    {
        int nx = pick(false);
        if(nx < 0 && respin()) nx = pick(false);
        if(nx < 0)
        {
            // timed waiters time out
            for(int i = 0; i < NT && nx < 0; ++i)
                if(T[i]->timed && (T[i]->st == BCOND || T[i]->st == BFUTEX))
                {
                    T[i]->timedout = true;
                    T[i]->st = RUN;
                    nx = i;
                }
            if(nx < 0)
                for(int i = 0; i < NT; ++i)
                    if(T[i]->st == QWAIT) { T[i]->st = RUN; nx = i; break; }
            if(nx < 0) stuck("Stuck");
        }
        if(nx != t_self) transfer(nx);
        if(m->st == RUN) return;
    }
}

static void wake_obj(St st, void* obj)
{
    for(int i = 0; i < NT; ++i)
        if(T[i]->st == st && T[i]->obj == obj) T[i]->st = RUN;
}
static inline void wake_spin()
{
    g_spinround = 0;
    if(g_nspin == 0) return;
    for(int i = 0; i < NT; ++i)
        if(T[i]->st == BSPIN) { T[i]->st = RUN; T[i]->nload = 0; }
    g_nspin = 0;
}

static void do_switch(bool force)
{
    int nx = pick(force);
    if(nx < 0 || nx == t_self) return;
    transfer(nx);
}

static void maybe_spurious()
{
    if(C.spurious && rndn(C.spurious) == 0)
    {
        int en[MAXT], n = 0;
        for(int i = 0; i < NT; ++i)
            if(T[i]->st == BCOND) en[n++] = i;
        if(n) T[en[rndn(n)]]->st = RUN;
    }
}

static inline bool ctl() { return t_self >= 0 && t_in == 0 && g_on.load(std::memory_order_relaxed); }

static FILE* g_dbg;
__attribute__((noinline)) static void point()
{
    t_in = 1;
    VT* m = T[t_self];
    g_steps++;
    if(g_dbg) fprintf(g_dbg, "%d %p\n", t_self, __builtin_extract_return_addr(__builtin_return_address(0)));
    if(++g_since > C.stuck_limit) stuck("Hang");
    m->consecutive++;
    if(C.spurious) maybe_spurious();
    switch(C.strategy)
    {
    case 1:
        while(g_nextchange < g_change->size() && (*g_change)[g_nextchange] <= g_steps)
        {
            g_nextchange++;
            m->prio = --g_lowprio;
        }
        if(m->consecutive > 20000) { m->prio = --g_lowprio; m->consecutive = 0; }
        do_switch(false);
        break;
    default:
        if(rndn(C.p_switch) == 0) do_switch(false);
    }
    t_in = 0;
}
extern "C" void vs_point(void) { if(ctl()) point(); }
extern "C" void vs_yield(void)
{
    if(!ctl()) return;
    t_in = 1;
    g_steps++;
    if(++g_since > C.stuck_limit) stuck("Hang");
    if(C.strategy == 1) T[t_self]->prio = --g_lowprio;
    do_switch(true);
    t_in = 0;
}
extern "C" void vs_wait_quiescent(void)
{
    if(!ctl()) return;
    t_in = 1;
    T[t_self]->st = QWAIT;
    block();
    t_in = 0;
}
extern "C" int vs_blocked_threads(void)
{
    int n = 0;
    for(int i = 0; i < NT; ++i) if(T[i]->st != RUN && T[i]->st != DONE && T[i]->st != QWAIT) n++;
    return n;
}
extern "C" int vs_live_threads(void)
{
    int n = 0;
    for(int i = 0; i < NT; ++i) if(T[i]->st != DONE) n++;
    return n;
}

// called after an atomic load / failed cas
static inline void note_load(void* a)
{
    VT* m = T[t_self];
    if(++m->nload == 1) m->nla = 0;
    int i;
    for(i = 0; i < m->nla; ++i) if(m->la[i] == a) break;
    if(i == m->nla)
    {
        if(m->nla == 3) { m->nload = 1; m->la[0] = a; m->nla = 1; return; }
        m->la[m->nla++] = a;
    }
    if(m->nload > 48)
    {
        // spinning on unchanged memory: sleep until somebody writes
        t_in = 1;
        m->nload = 0;
        m->st = BSPIN;
        m->obj = a;
        g_nspin++;
        if(C.strategy == 1) m->prio = --g_lowprio;
        block();
        t_in = 0;
    }
}
static inline void note_write()
{
    T[t_self]->nload = 0;
    wake_spin();
}

// ------------------------------------------------------------------ crash handling
static void on_crash(int sig)
{
    if(g_on.load())
    {
        char b[128];
        int n = snprintf(b, sizeof b, "[\"Crash\",%d]", sig);
        append(b, n);
        if(getenv("VS_DEBUG"))
        {
            void* bt[64];
            int k = backtrace(bt, 64);
            backtrace_symbols_fd(bt, k, 2);
        }
    }
    _exit(4);
}
static void install_crash()
{
    static char* stk = (char*) malloc(1 << 16);
    stack_t ss{};
    ss.ss_sp = stk;
    ss.ss_size = 1 << 16;
    sigaltstack(&ss, 0);
    struct sigaction sa{};
    sa.sa_handler = on_crash;
    sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    int sigs[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT};
    for(int s : sigs) sigaction(s, &sa, 0);
}

// ------------------------------------------------------------------ start / stop
static VT* newvt()
{
    if(NT >= MAXT) stuck("TooManyThreads");
    VT* t = new VT();
    t->id = NT;
    t->st = RUN;
    t->prio = (int64_t) (rnd() >> 2) + 1;
    T[NT++] = t;
    return t;
}
extern "C" void vs_start(const vs_config* c)
{
    if(getenv("VS_STEPS")) { g_dbg = fopen(getenv("VS_STEPS"), "w"); setvbuf(g_dbg, 0, _IOLBF, 4096);}
    C = *c;
    if(C.p_switch < 1) C.p_switch = 1;
    if(!C.stuck_limit) C.stuck_limit = 2000000;
    uint64_t x = C.seed;
    rng_s[0] = splitmix(x);
    rng_s[1] = splitmix(x);
    g_steps = g_switches = g_since = 0;
    g_lowprio = 0;
    g_change = new std::vector<uint64_t>();
    for(int i = 0; i < C.n_change; ++i) g_change->push_back(rndn(C.est_steps ? C.est_steps : 1000));
    for(size_t i = 0; i < g_change->size(); ++i)
        for(size_t j = i + 1; j < g_change->size(); ++j)
            if((*g_change)[j] < (*g_change)[i]) std::swap((*g_change)[i], (*g_change)[j]);
    g_nextchange = 0;
    install_crash();
    if(T[0]) { t_self = 0; }
    else
    {
        VT* t = newvt();
        t_self = t->id;
    }
    g_on = 1;
}
extern "C" void vs_stop(void) { g_on = 0; }

// ------------------------------------------------------------------ pthread interposition
static void* tramp(void* p)
{
    VT* t = (VT*) p;
    t_in = 1;
    t_self = t->id;
    {
        stack_t ss{};
        ss.ss_sp = t->sigstk;
        ss.ss_size = 1 << 16;
        sigaltstack(&ss, 0);
    }
    fwait(&t->fut);
    t_in = 0;
    t->ret = t->fn(t->arg);
    return t->ret;
}
// thread end must happen after thread_local destructors: use a pthread key whose destructor runs last rounds
static pthread_key_t g_key;
static std::atomic<int> g_keyinit;
static void key_dtor(void* p)
{
    VT* t = (VT*) p;
    // run in the last destructor round
    uintptr_t n = (uintptr_t) t->obj;
    if(t->st == RUN && n < 3)
    {
        t->obj = (void*) (n + 1);
        pthread_setspecific(g_key, p);
        return;
    }
    t_in = 1;
    t->st = DONE;
    wake_obj(BJOIN, t);
    wake_spin();
    int nx = pick(false);
    if(nx < 0 && respin()) nx = pick(false);
    if(nx < 0)
        for(int i = 0; i < NT; ++i)
            if(T[i]->st == QWAIT) { T[i]->st = RUN; nx = i; break; }
    if(nx < 0) stuck("Stuck");
    g_switches++;
    T[nx]->consecutive = 0;
    int keep = t_self;
    (void) keep;
    t_self = -1;
    fwake(&T[nx]->fut);
}
static void* tramp2(void* p)
{
    VT* t = (VT*) p;
    t->obj = 0;
    pthread_setspecific(g_key, p);
    void* r = tramp(p);
    t->obj = 0;
    return r;
}

extern "C" int pthread_create(pthread_t* th, const pthread_attr_t* a, void* (*f)(void*), void* arg)
{
    if(!ctl()) return REAL(pthread_create)(th, a, f, arg);
    point();
    t_in = 1;
    if(!g_keyinit.exchange(1)) pthread_key_create(&g_key, key_dtor);
    VT* t = newvt();
    t->fn = f;
    t->arg = arg;
    t->sigstk = malloc(1 << 16);
    int r = REAL(pthread_create)(&t->th, a, tramp2, t);
    *th = t->th;
    t_in = 0;
    point();
    return r;
}
extern "C" int pthread_join(pthread_t th, void** ret)
{
    if(!ctl()) return REAL(pthread_join)(th, ret);
    point();
    VT* t = 0;
    for(int i = NT - 1; i >= 0; --i) if(T[i]->th == th && !T[i]->joined && i != 0) { t = T[i]; break; }
    if(!t) return REAL(pthread_join)(th, ret);
    t_in = 1;
    while(t->st != DONE)
    {
        T[t_self]->st = BJOIN;
        T[t_self]->obj = t;
        block();
    }
    t->joined = true;
    t_in = 0;
    return REAL(pthread_join)(th, ret);
}

static bool mlock(pthread_mutex_t* m, bool tryonly)
{
    while(true)
    {
        if(m->__data.__lock == 0)
        {
            m->__data.__lock = 1;
            m->__data.__owner = t_self + 1;
            m->__data.__count = 1;
            return true;
        }
        if(m->__data.__owner == t_self + 1 && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP)
        {
            m->__data.__count++;
            return true;
        }
        if(tryonly) return false;
        T[t_self]->st = BMUTEX;
        T[t_self]->obj = m;
        block();
    }
}
static void munlock(pthread_mutex_t* m)
{
    if((m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP && --m->__data.__count > 0) return;
    m->__data.__lock = 0;
    m->__data.__owner = 0;
    m->__data.__count = 0;
    wake_obj(BMUTEX, m);
}
extern "C" int pthread_mutex_lock(pthread_mutex_t* m)
{
    if(!ctl()) return REAL(pthread_mutex_lock)(m);
    point();
    t_in = 1;
    mlock(m, false);
    T[t_self]->nload = 0;
    t_in = 0;
    return 0;
}
extern "C" int pthread_mutex_trylock(pthread_mutex_t* m)
{
    if(!ctl()) return REAL(pthread_mutex_trylock)(m);
    point();
    t_in = 1;
    bool r = mlock(m, true);
    t_in = 0;
    return r ? 0 : EBUSY;
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t* m)
{
    if(!ctl()) return REAL(pthread_mutex_unlock)(m);
    t_in = 1;
    munlock(m);
    t_in = 0;
    point();
    return 0;
}
static int cwait(pthread_cond_t* c, pthread_mutex_t* m, bool timed)
{
    point();
    t_in = 1;
    VT* me = T[t_self];
    munlock(m);
    me->st = BCOND;
    me->obj = c;
    me->timed = timed;
    me->timedout = false;
    block();
    me->timed = false;
    bool to = me->timedout;
    mlock(m, false);
    t_in = 0;
    return to ? ETIMEDOUT : 0;
}
extern "C" int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    if(!ctl()) return REAL(pthread_cond_wait)(c, m);
    return cwait(c, m, false);
}
extern "C" int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts)
{
    if(!ctl()) return REAL(pthread_cond_timedwait)(c, m, ts);
    return cwait(c, m, true);
}
extern "C" int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts)
{
    if(!ctl()) return REAL(pthread_cond_clockwait)(c, m, k, ts);
    return cwait(c, m, true);
}
extern "C" int pthread_cond_signal(pthread_cond_t* c)
{
    if(!ctl()) return REAL(pthread_cond_signal)(c);
    point();
    t_in = 1;
    int en[MAXT], n = 0;
    for(int i = 0; i < NT; ++i)
        if(T[i]->st == BCOND && T[i]->obj == c) en[n++] = i;
    if(n) T[en[rndn(n)]]->st = RUN;
    t_in = 0;
    return 0;
}
extern "C" int pthread_cond_broadcast(pthread_cond_t* c)
{
    if(!ctl()) return REAL(pthread_cond_broadcast)(c);
    point();
    t_in = 1;
    wake_obj(BCOND, c);
    t_in = 0;
    return 0;
}
// rwlocks: __readers = active readers, __cur_writer = writer id + 1
static int rwl(pthread_rwlock_t* l, bool wr, bool tryonly)
{
    point();
    t_in = 1;
    while(true)
    {
        bool ok = wr ? (l->__data.__readers == 0 && l->__data.__cur_writer == 0) : l->__data.__cur_writer == 0;
        if(ok) break;
        if(tryonly) { t_in = 0; return EBUSY; }
        T[t_self]->st = BRW;
        T[t_self]->obj = l;
        block();
    }
    if(wr) l->__data.__cur_writer = t_self + 1;
    else l->__data.__readers++;
    t_in = 0;
    return 0;
}
extern "C" int pthread_rwlock_rdlock(pthread_rwlock_t* l) { if(!ctl()) return REAL(pthread_rwlock_rdlock)(l); return rwl(l, false, false); }
extern "C" int pthread_rwlock_wrlock(pthread_rwlock_t* l) { if(!ctl()) return REAL(pthread_rwlock_wrlock)(l); return rwl(l, true, false); }
extern "C" int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { if(!ctl()) return REAL(pthread_rwlock_tryrdlock)(l); return rwl(l, false, true); }
extern "C" int pthread_rwlock_trywrlock(pthread_rwlock_t* l) { if(!ctl()) return REAL(pthread_rwlock_trywrlock)(l); return rwl(l, true, true); }
extern "C" int pthread_rwlock_unlock(pthread_rwlock_t* l)
{
    if(!ctl()) return REAL(pthread_rwlock_unlock)(l);
    t_in = 1;
    if(l->__data.__cur_writer == t_self + 1) l->__data.__cur_writer = 0;
    else if(l->__data.__readers > 0) l->__data.__readers--;
    wake_obj(BRW, l);
    t_in = 0;
    point();
    return 0;
}
extern "C" int sched_yield(void)
{
    if(!ctl()) return REAL(sched_yield)();
    vs_yield();
    return 0;
}
// virtual time: reproducible, and sleeping costs nothing
static int64_t g_now = 1700000000ll * 1000000000;
static void slept(const struct timespec* a) { if(a && a->tv_sec < 1000000000) g_now += a->tv_sec * 1000000000ll + a->tv_nsec; }
extern "C" int clock_gettime(clockid_t k, struct timespec* ts) noexcept
{
    if(!g_on.load(std::memory_order_relaxed)) return (int) rawsys(SYS_clock_gettime, k, (long) ts, 0, 0, 0, 0);
    g_now += 100;
    ts->tv_sec = g_now / 1000000000;
    ts->tv_nsec = g_now % 1000000000;
    return 0;
}
extern "C" int nanosleep(const struct timespec* a, struct timespec* b)
{
    if(!ctl()) return REAL(nanosleep)(a, b);
    slept(a);
    vs_yield();
    return 0;
}
extern "C" int clock_nanosleep(clockid_t k, int fl, const struct timespec* a, struct timespec* b)
{
    if(!ctl()) return REAL(clock_nanosleep)(k, fl, a, b);
    if(!(fl & TIMER_ABSTIME)) slept(a);
    vs_yield();
    return 0;
}
extern "C" int usleep(useconds_t u)
{
    if(!ctl()) return REAL(usleep)(u);
    g_now += u * 1000ll;
    vs_yield();
    return 0;
}
// std::atomic::wait / std::counting_semaphore reach the kernel through syscall(SYS_futex, ...)
extern "C" long syscall(long n, ...) noexcept
{
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if(n == SYS_futex && ctl())
    {
        int op = b & 127 & ~FUTEX_CLOCK_REALTIME & ~FUTEX_PRIVATE_FLAG;
        if(op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET)
        {
            point();
            t_in = 1;
            if(*(volatile int*) a != (int) c) { t_in = 0; errno = EAGAIN; return -1; }
            VT* me = T[t_self];
            me->st = BFUTEX;
            me->obj = (void*) a;
            me->timed = d != 0;
            me->timedout = false;
            block();
            me->timed = false;
            bool to = me->timedout;
            t_in = 0;
            if(to) { errno = ETIMEDOUT; return -1; }
            return 0;
        }
        if(op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET)
        {
            point();
            t_in = 1;
            long k = 0;
            for(int i = 0; i < NT && k < c; ++i)
                if(T[i]->st == BFUTEX && T[i]->obj == (void*) a) { T[i]->st = RUN; ++k; }
            t_in = 0;
            return k;
        }
    }
    long r = rawsys(n, a, b, c, d, e, f);
    if(r < 0 && r > -4096) { errno = -r; return -1; }
    return r;
}
// function-local statics
extern "C" int __cxa_guard_acquire(long long int* g)
{
    char* p = (char*) g;
    while(true)
    {
        if(__atomic_load_n(p, __ATOMIC_ACQUIRE)) return 0;
        if(!ctl())
        {
            if(p[1] && t_in == 0) { if(__atomic_load_n(p, __ATOMIC_ACQUIRE)) return 0; }
            p[1] = 1;
            return 1;
        }
        if(p[1] == 0) { p[1] = 1; return 1; }
        t_in = 1;
        T[t_self]->st = BGUARD;
        T[t_self]->obj = g;
        block();
        t_in = 0;
    }
}
extern "C" void __cxa_guard_release(long long int* g)
{
    char* p = (char*) g;
    p[1] = 0;
    __atomic_store_n(p, 1, __ATOMIC_RELEASE);
    if(g_on.load() && t_self >= 0) wake_obj(BGUARD, g);
}
extern "C" void __cxa_guard_abort(long long int* g)
{
    char* p = (char*) g;
    p[1] = 0;
    if(g_on.load() && t_self >= 0) wake_obj(BGUARD, g);
}

// ------------------------------------------------------------------ fake hwloc + arena shadow
#include <hwloc.h>
static uintptr_t A0, A1, ANEXT;          // reserved arena address range
static unsigned char* SH;                // shadow: 1 byte per 8 bytes: 0 none 1 live 2 freed
static const size_t ASIZE = (size_t) 1 << 32;
struct Region { size_t len; bool live; long id; };
static std::map<uintptr_t, Region>* g_regions;
static std::map<uintptr_t, size_t>* g_blocks;
static uint64_t g_sys_live, g_sys_allocs, g_sys_frees, g_badfree;
static int g_touchcheck = 1;
static int g_touched;
static long g_fail_after = -1;
static int g_pus = 8;
extern "C" void vs_set_pus(int n) { g_pus = n; }
extern "C" void vs_fail_alloc_after(long n) { g_fail_after = n; }
extern "C" void vs_arena_touchcheck(int on) { g_touchcheck = on; }
extern "C" void vs_arena_stats(uint64_t* a, uint64_t* b, uint64_t* c, uint64_t* d, uint64_t* e)
{
    if(a) *a = g_sys_live;
    if(b) *b = g_sys_allocs;
    if(c) *c = g_sys_frees;
    if(d) *d = g_blocks ? g_blocks->size() : 0;
    if(e) *e = g_badfree;
}
extern "C" long vs_region_of(uintptr_t p, uintptr_t* base, size_t* len, int* live)
{
    if(!g_regions) return -1;
    auto it = g_regions->upper_bound(p);
    if(it == g_regions->begin()) return -1;
    --it;
    if(p >= it->first + it->second.len) return -1;
    if(base) *base = it->first;
    if(len) *len = it->second.len;
    if(live) *live = it->second.live;
    return it->second.id;
}
static void arena_init()
{
    if(A0) return;
    A0 = (uintptr_t) mmap(0, ASIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    SH = (unsigned char*) mmap(0, ASIZE / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    A1 = A0 + ASIZE;
    ANEXT = A0 + (1 << 20);
    g_regions = new std::map<uintptr_t, Region>();
    g_blocks = new std::map<uintptr_t, size_t>();
}
struct vs_hobj { hwloc_obj o; };
static struct hwloc_obj* g_objs[256];
extern "C" {
int hwloc_topology_init(hwloc_topology_t* t) { arena_init(); *t = (hwloc_topology_t) 0x1000; return 0; }
int hwloc_topology_load(hwloc_topology_t) { return 0; }
void hwloc_topology_destroy(hwloc_topology_t) {}
int hwloc_get_type_depth(hwloc_topology_t, hwloc_obj_type_t) { return 1; }
unsigned hwloc_get_nbobjs_by_depth(hwloc_topology_t, int) { return g_pus; }
hwloc_obj_t hwloc_get_obj_by_depth(hwloc_topology_t, int, unsigned i)
{
    if((int) i >= g_pus) return 0;
    if(!g_objs[i])
    {
        g_objs[i] = (hwloc_obj*) calloc(1, sizeof(hwloc_obj));
        g_objs[i]->os_index = i;
        g_objs[i]->logical_index = i;
        g_objs[i]->cpuset = (hwloc_cpuset_t) 0x2000;
    }
    return g_objs[i];
}
int hwloc_set_cpubind(hwloc_topology_t, hwloc_const_cpuset_t, int) { return 0; }
int hwloc_get_cpubind(hwloc_topology_t, hwloc_cpuset_t, int) { return 0; }
int hwloc_set_membind(hwloc_topology_t, hwloc_const_bitmap_t, hwloc_membind_policy_t, int) { return 0; }
int hwloc_bitmap_asprintf(char** s, hwloc_const_bitmap_t) { *s = strdup("x"); return 1; }
void* hwloc_alloc_membind(hwloc_topology_t, size_t len, hwloc_const_bitmap_t, hwloc_membind_policy_t, int)
{
    int save = t_in;
    t_in = 1;
    arena_init();
    if(g_fail_after >= 0 && g_fail_after-- == 0) { if(vs_fail_hook) vs_fail_hook(); t_in = save; errno = ENOMEM; return 0; }
    size_t l = (len + 4095) & ~(size_t) 4095;
    if(ANEXT + l + 4096 > A1) { t_in = save; errno = ENOMEM; return 0; }
    uintptr_t p = ANEXT;
    ANEXT += l + 4096;
    (*g_regions)[p] = Region{len, true, (long) g_regions->size()};
    g_sys_live += len;
    g_sys_allocs++;
    if(vs_sys_hook) vs_sys_hook(0, p, len, len);
    t_in = save;
    return (void*) p;
}
void* hwloc_alloc(hwloc_topology_t t, size_t len) { return hwloc_alloc_membind(t, len, 0, HWLOC_MEMBIND_DEFAULT, 0); }
int hwloc_free(hwloc_topology_t, void* p, size_t len)
{
    int save = t_in;
    t_in = 1;
    auto it = g_regions->find((uintptr_t) p);
    if(it == g_regions->end() || !it->second.live)
    {
        g_badfree++;
        vs_log("[\"BadFree\",\"system\"]");
    }
    else
    {
        it->second.live = false;
        g_sys_live -= it->second.len;
        g_sys_frees++;
        // blocks that are still live in there
        long lost = 0;
        for(auto b = g_blocks->lower_bound((uintptr_t) p); b != g_blocks->end() && b->first < (uintptr_t) p + it->second.len;)
        {
            lost++;
            b = g_blocks->erase(b);
        }
        if(lost) vs_log("[\"BadFree\",\"chunk with %ld live blocks\"]", lost);
        if(vs_sys_hook) vs_sys_hook(1, (uintptr_t) p, it->second.len, len);
        size_t l = (it->second.len + 4095) & ~(size_t) 4095;
        mprotect(p, l, PROT_NONE);
    }
    t_in = save;
    return 0;
}
}
// BumpAllocator::allocate / deallocate are wrapped at link time (--wrap); both are weak so that the
// harness still links if they are inlined or renamed.
struct VBlock { uintptr_t ptr; size_t len; };
extern "C" VBlock __real__ZN9redGrapes6memory13BumpAllocator8allocateEm(void*, size_t) __attribute__((weak));
extern "C" uint16_t __real__ZN9redGrapes6memory13BumpAllocator10deallocateENS0_5BlockE(void*, VBlock) __attribute__((weak));
extern "C" VBlock __wrap__ZN9redGrapes6memory13BumpAllocator8allocateEm(void* self, size_t n)
{
    VBlock b = __real__ZN9redGrapes6memory13BumpAllocator8allocateEm(self, n);
    if(b.ptr && A0 && b.ptr >= A0 && b.ptr < A1)
    {
        int save = t_in;
        t_in = 1;
        (*g_blocks)[b.ptr] = n;
        memset(SH + (b.ptr - A0) / 8, 1, (b.ptr - A0 + n + 7) / 8 - (b.ptr - A0) / 8);
        t_in = save;
    }
    return b;
}
static void block_free(uintptr_t p)
{
    if(!(A0 && p >= A0 && p < A1)) return;
    int save = t_in;
    t_in = 1;
    auto it = g_blocks->find(p);
    if(it == g_blocks->end())
    {
        g_badfree++;
        vs_log("[\"BadFree\",\"block\"]");
        if(getenv("VS_DEBUG"))
        {
            void* bt[32];
            int k = backtrace(bt, 32);
            backtrace_symbols_fd(bt, k, 2);
        }
    }
    else
    {
        // only what lies wholly inside the block: neighbours may share the first and the last granule
        size_t g0 = (p - A0 + 7) / 8, g1 = (p - A0 + it->second) / 8;
        if(g1 > g0) memset(SH + g0, 2, g1 - g0);
        g_blocks->erase(it);
    }
    t_in = save;
}
extern "C" uint16_t __wrap__ZN9redGrapes6memory13BumpAllocator10deallocateENS0_5BlockE(void* self, VBlock b)
{
    block_free(b.ptr);
    return __real__ZN9redGrapes6memory13BumpAllocator10deallocateENS0_5BlockE(self, b);
}

static void __attribute__((noinline)) touched(uintptr_t a, bool wr)
{
    if(!g_touchcheck || g_touched) return;
    g_touched = 1;
    vs_log("[\"TouchFreed\",%s]", wr ? "true" : "false");
    if(getenv("VS_DEBUG"))
    {
        fprintf(stderr, "touch of freed memory at %p\n", (void*) a);
        void* bt[32];
        int k = backtrace(bt, 32);
        backtrace_symbols_fd(bt, k, 2);
    }
}
static inline void shadow(uintptr_t a, bool wr)
{
    if(SH && a - A0 < ASIZE && SH[(a - A0) >> 3] == 2 && t_in == 0 && t_self >= 0) touched(a, wr);
}

// ------------------------------------------------------------------ tsan interface
static inline void plain(void* p, bool wr)
{
    uintptr_t a = (uintptr_t) p;
    if(!ctl()) return;
    shadow(a, wr);
    if(C.p_plain)
    {
        // only memory that can be shared: arenas and heap, not the stack
        uintptr_t sp = (uintptr_t) __builtin_frame_address(0);
        if(a - sp + (1 << 16) < (1 << 17)) return;
        if(rndn(C.p_plain) == 0) point();
    }
}
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define PL(n) \
    void __tsan_read##n(void* a) { plain(a, false); } \
    void __tsan_write##n(void* a) { plain(a, true); } \
    void __tsan_unaligned_read##n(void* a) { plain(a, false); } \
    void __tsan_unaligned_write##n(void* a) { plain(a, true); } \
    void __tsan_read##n##_pc(void* a, void*) { plain(a, false); } \
    void __tsan_write##n##_pc(void* a, void*) { plain(a, true); } \
    void __tsan_read_write##n(void* a) { plain(a, true); } \
    void __tsan_unaligned_read_write##n(void* a) { plain(a, true); }
PL(1) PL(2) PL(4) PL(8) PL(16)
static inline void vol(void* a, bool wr)
{
    if(!ctl()) return;
    shadow((uintptr_t) a, wr);
    point();
    if(wr) note_write();
}
#define VL(n) \
    void __tsan_volatile_read##n(void* a) { vol(a, false); } \
    void __tsan_volatile_write##n(void* a) { vol(a, true); } \
    void __tsan_unaligned_volatile_read##n(void* a) { vol(a, false); } \
    void __tsan_unaligned_volatile_write##n(void* a) { vol(a, true); }
VL(1) VL(2) VL(4) VL(8) VL(16)
void __tsan_read_range(void* a, long n) { plain(a, false); if(n > 8) shadow((uintptr_t) a + n - 1, false); }
void __tsan_write_range(void* a, long n) { plain(a, true); if(n > 8) shadow((uintptr_t) a + n - 1, true); }
void __tsan_vptr_update(void** a, void*) { plain(a, true); }
void __tsan_vptr_read(void** a) { plain(a, false); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { plain(d, true); plain((void*) s, false); return memcpy(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { plain(d, true); return memset(d, c, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { plain(d, true); plain((void*) s, false); return memmove(d, s, n); }

static inline void apre(volatile void* p, bool wr)
{
    if(!ctl()) return;
    shadow((uintptr_t) p, wr);
    point();
}
#define AT(N, T) \
    T __tsan_atomic##N##_load(const volatile T* a, int) { apre((volatile void*) a, false); T v = __atomic_load_n(a, __ATOMIC_SEQ_CST); if(ctl()) note_load((void*) a); return v; } \
    void __tsan_atomic##N##_store(volatile T* a, T v, int) { apre(a, true); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); if(ctl()) note_write(); } \
    T __tsan_atomic##N##_exchange(volatile T* a, T v, int) { apre(a, true); T r = __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); if(ctl()) note_write(); return r; } \
    T __tsan_atomic##N##_fetch_add(volatile T* a, T v, int) { apre(a, true); T r = __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); if(ctl()) note_write(); return r; } \
    T __tsan_atomic##N##_fetch_sub(volatile T* a, T v, int) { apre(a, true); T r = __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); if(ctl()) note_write(); return r; } \
    T __tsan_atomic##N##_fetch_and(volatile T* a, T v, int) { apre(a, true); T r = __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); if(ctl()) note_write(); return r; } \
    T __tsan_atomic##N##_fetch_or(volatile T* a, T v, int) { apre(a, true); T r = __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); if(ctl()) note_write(); return r; } \
    T __tsan_atomic##N##_fetch_xor(volatile T* a, T v, int) { apre(a, true); T r = __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); if(ctl()) note_write(); return r; } \
    T __tsan_atomic##N##_fetch_nand(volatile T* a, T v, int) { apre(a, true); T r = __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); if(ctl()) note_write(); return r; } \
    static inline int cas##N(volatile T* a, T* c, T v) { apre(a, true); int r = __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); if(ctl()) { if(r) note_write(); else note_load((void*) a); } return r; } \
    int __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { return cas##N(a, c, v); } \
    int __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { \
        if(C.spurious && ctl() && rndn(16) == 0) { apre(a, false); *c = __atomic_load_n(a, __ATOMIC_SEQ_CST); return 0; } \
        return cas##N(a, c, v); } \
    T __tsan_atomic##N##_compare_exchange_val(volatile T* a, T c, T v, int, int) { cas##N(a, &c, v); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { vs_point(); }
void __tsan_atomic_signal_fence(int) {}
}
