// Interpreter for task programs on redGrapes' public API. Instrumented.
#include <redGrapes/redGrapes.hpp>
#include <redGrapes/resource/fieldresource.hpp>
#include <redGrapes/resource/ioresource.hpp>
#include <redGrapes/scheduler/default_scheduler.hpp>
#include <redGrapes/scheduler/tag_match.hpp>
#include <redGrapes/dispatch/thread/worker_pool.hpp>

#include "obs.h"
#include "runner.h"

#include <pthread.h>
#include <array>
#include <cstdio>
#include <cstring>
#include <map>
#include <memory>
#include <optional>
#include <sstream>
#include <string>
#include <vector>

namespace rg = redGrapes;

struct Cmd { long batch; std::string op; std::vector<long> a; };
enum Flags { F_PUPPET = 1, F_INT = 2, F_ARGS = 4, F_CTX = 8, F_DROP = 16, F_LIST = 32, F_STACK = 64, F_BIG = 128 };
struct Actor
{
    std::vector<Cmd> cmds;
    size_t pc = 0;
    long granted = 0;
    bool waiting = false;   // waits for the controller
    int gate = 0;           // event id of the gate (tasks)
    bool finished = false;
};
struct TaskDef
{
    int parent = 0;
    int flags = 0;
    unsigned long tags = 0;
    std::vector<Acc> acc;   // current
};
static const int MAXTASK = 400;
static const int MAXRES = 64;
static const int MAXEV = 4000;
static const int NX = 3, NY = 3;
using Arr2 = std::array<std::array<Cell, NX>, NY>;

struct ResDef { std::string kind; int d0; int owner; };

static Actor ACT[MAXTASK];           // 0 = main, t = task
static Actor CTL;
static TaskDef TD[MAXTASK];
static ResDef RD[MAXRES];
static int NRES, NTASK, WORKERS, PUS;
static std::string SCHED;
static std::optional<rg::IOResource<Cell>> RIO[MAXRES];
static std::optional<rg::FieldResource<std::vector<Cell>>> RVEC[MAXRES];
static std::optional<rg::FieldResource<Arr2>> RARR[MAXRES];
static Cell* BASE[MAXRES];
static long E0[MAXRES], E1[MAXRES];
static std::optional<rg::Future<int>> FI[MAXTASK];
static std::optional<rg::Future<void>> FV[MAXTASK];
static int FSTATE[MAXTASK];          // 0 none 1 held 2 being used
static std::optional<rg::scheduler::EventPtr> EV[MAXEV];
static int EVSTATE[MAXEV];          // 0 none 1 created 2 reached
static bool EVSHARED[MAXEV];        // somebody else than the creator pauses on it
static int NEXTEV;
static pthread_mutex_t MM = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t MC = PTHREAD_COND_INITIALIZER;
static int INFLIGHT;                // the controller is inside a notification (it is a thread of the user)
static bool FIN_ONLY;

static void exec_actor(int a);

static void get_ctx(int* depth, int* bt, int* nbt)
{
    *depth = rg::scope_depth();
    auto b = rg::backtrace();
    *nbt = 0;
    for(auto& t : b)
        if(*nbt < 256) bt[(*nbt)++] = atoi(t.get().label.c_str());
}

static int body(int tid)
{
    int depth = -1, bt[256], nbt = 0;
    if(TD[tid].flags & F_CTX) get_ctx(&depth, bt, &nbt);
    obs_start(tid, TD[tid].acc.data(), TD[tid].acc.size(), BASE, E0, E1, depth, bt, nbt);
    exec_actor(tid);
    ACT[tid].finished = true;
    obs_end(tid);
    return tid * 7 + 3;
}

struct Token
{
    int tid;
    explicit Token(int t) : tid(t) {}
    Token(Token&& o) : tid(o.tid) { o.tid = 0; }
    Token(Token const&) = delete;
    ~Token() { if(tid) obs_dtor(tid); }
};
template<class R, int N>
struct Body
{
    Token tok;
    char pad[N];
    explicit Body(int t) : tok(t) { memset(pad, 7, N); }
    Body(Body&&) = default;
    template<class... A>
    R operator()(A&&...)
    {
        if constexpr(std::is_void_v<R>) { body(tok.tid); return; }
        else return body(tok.tid);
    }
};

static rg::ResourceAccess mkacc(Acc const& a)
{
    using namespace rg::access;
    if(RIO[a.r])
    {
        if(a.mode == 0) return RIO[a.r]->write();
        if(a.mode == 1) return RIO[a.r]->read();
        return RIO[a.r]->make_access(IOAccess((IOAccess::Mode) a.mode));
    }
    if(RVEC[a.r])
    {
        bool whole = a.hi0 > 100000;
        size_t lo = a.lo0, hi = a.hi0;
        if(a.mode == 0) return whole ? (rg::ResourceAccess) RVEC[a.r]->write() : (rg::ResourceAccess) RVEC[a.r]->area({lo}, {hi}).write();
        if(a.mode == 1) return whole ? (rg::ResourceAccess) RVEC[a.r]->read() : (rg::ResourceAccess) RVEC[a.r]->area({lo}, {hi}).read();
        if(whole) return RVEC[a.r]->make_access(FieldAccess<1>(IOAccess((IOAccess::Mode) a.mode)));
        return RVEC[a.r]->make_access(FieldAccess<1>(IOAccess((IOAccess::Mode) a.mode), ArrayAccess<AreaAccess, 1, And_t>({AreaAccess({lo, hi})})));
    }
    bool whole = a.hi0 > 100000;
    size_t l0 = a.lo0, h0 = a.hi0, l1 = a.lo1, h1 = a.hi1;
    if(whole)
    {
        if(a.mode == 0) return RARR[a.r]->write();
        if(a.mode == 1) return RARR[a.r]->read();
        return RARR[a.r]->make_access(FieldAccess<2>(IOAccess((IOAccess::Mode) a.mode)));
    }
    if(a.mode == 0) return RARR[a.r]->area({l0, l1}, {h0, h1}).write();
    if(a.mode == 1) return RARR[a.r]->area({l0, l1}, {h0, h1}).read();
    return RARR[a.r]->make_access(
        FieldAccess<2>(IOAccess((IOAccess::Mode) a.mode), ArrayAccess<AreaAccess, 2, And_t>({AreaAccess({l0, h0}), AreaAccess({l1, h1})})));
}

static std::string accstr(std::vector<Acc> const& v)
{
    std::string s = "[";
    for(size_t i = 0; i < v.size(); ++i)
    {
        char b[128];
        snprintf(b, sizeof b, "%s[%d,%d,%ld,%ld,%ld,%ld]", i ? "," : "", v[i].r, v[i].mode, v[i].lo0, v[i].hi0, v[i].lo1, v[i].hi1);
        s += b;
    }
    return s + "]";
}

template<class B>
static void props(B& b, int tid, size_t from)
{
    TaskDef& d = TD[tid];
    if(d.flags & F_LIST && d.acc.size() - from <= 4 && d.acc.size() > from)
    {
        auto* p = &d.acc[from];
        switch(d.acc.size() - from)
        {
        case 1: b.resources({mkacc(p[0])}); break;
        case 2: b.resources({mkacc(p[0]), mkacc(p[1])}); break;
        case 3: b.resources({mkacc(p[0]), mkacc(p[1]), mkacc(p[2])}); break;
        default: b.resources({mkacc(p[0]), mkacc(p[1]), mkacc(p[2]), mkacc(p[3])}); break;
        }
    }
    else
        for(size_t i = from; i < d.acc.size(); ++i) b.add_resource(mkacc(d.acc[i]));
    b.label(std::to_string(tid).c_str());
    if(d.tags) b.scheduling_tags(std::bitset<64>(d.tags));
    if(d.flags & (F_PUPPET | F_STACK)) b.enable_stack_switching();
}

template<class B>
static void give(B& b, int tid)
{
    if(TD[tid].flags & F_DROP)
    {
        // the future is dropped inside the submission: log first
        vs_log("[\"Drop\",%d]", tid);
        if(tid % 3 == 0) { auto c = std::move(b); }
        else { auto f = b.submit(); }
    }
    else
    {
        auto f = b.submit();
        if constexpr(std::is_same_v<decltype(f), rg::Future<int>>) FI[tid].emplace(std::move(f));
        else FV[tid].emplace(std::move(f));
        obs_set(&FSTATE[tid], 1);
    }
}
template<class B>
static void finish(B&& b, int tid, size_t from)
{
    props(b, tid, from);
    // the builder may be handed on, and submits by itself when it goes out of scope
    if(tid % 5 == 2) { auto c = std::move(b); give(c, tid); }
    else if(tid % 5 == 4) { std::decay_t<B> c(b); give(c, tid); }
    else give(b, tid);
}
template<class R, int N>
static void submit2(int tid)
{
    TaskDef& d = TD[tid];
    size_t na = (d.flags & F_ARGS) ? std::min<size_t>(d.acc.size(), 2) : 0;
    if(na == 0) finish(rg::emplace_task(Body<R, N>(tid)), tid, 0);
    else if(na == 1) finish(rg::emplace_task(Body<R, N>(tid), mkacc(d.acc[0])), tid, 1);
    else finish(rg::emplace_task(Body<R, N>(tid), mkacc(d.acc[0]), mkacc(d.acc[1])), tid, 2);
}
static void do_submit(int actor, int tid)
{
    TD[tid].parent = actor;
    vs_log("[\"Sub\",%d,%d,%s,%d]", tid, actor, accstr(TD[tid].acc).c_str(), (TD[tid].flags & F_INT) ? tid * 7 + 3 : 0);
    if(TD[tid].flags & F_BIG)
    {
        if(TD[tid].flags & F_INT) submit2<int, 3000>(tid);
        else submit2<void, 3000>(tid);
    }
    else if(TD[tid].flags & F_INT) submit2<int, 8>(tid);
    else submit2<void, 8>(tid);
    vs_log("[\"SubR\",%d]", tid);
}

static void do_get(int by, int tid)
{
    if(!obs_cas(&FSTATE[tid], 1, 2)) return;
    vs_log("[\"Get\",%d,%d]", by, tid);
    long v = 0;
    if(FI[tid]) v = FI[tid]->get();
    else FV[tid]->get();
    vs_log("[\"GetR\",%d,%d,%ld]", by, tid, v);
    FI[tid].reset();
    FV[tid].reset();
}
static void do_drop(int tid)
{
    if(!obs_cas(&FSTATE[tid], 1, 2)) return;
    vs_log("[\"Drop\",%d]", tid);
    FI[tid].reset();
    FV[tid].reset();
}
static void do_ready(int tid)
{
    if(!obs_cas(&FSTATE[tid], 1, 2)) return;
    vs_log("[\"RdyC\",%d]", tid);
    bool r = FI[tid] ? FI[tid]->is_ready() : FV[tid]->is_ready();
    vs_log("[\"Rdy\",%d,%d]", tid, (int) r);
    obs_set(&FSTATE[tid], 1);
}
using OptEv = std::optional<rg::scheduler::EventPtr>;
static OptEv mkev(int actor, int& id)
{
    if(!id) id = obs_inc(&NEXTEV);
    vs_log("[\"Mk\",%d,%d]", actor, id);
    auto e = rg::create_event();
    if(!e) { vs_log("[\"MkFail\",%d,%d]", actor, id); return e; }
    EV[id] = *e;
    obs_set(&EVSTATE[id], 1);
    return e;
}
static void ctx_resume(int actor, int ev)
{
    int depth = -1, bt[256], nbt = 0;
    if(TD[actor].flags & F_CTX) get_ctx(&depth, bt, &nbt);
    obs_resume(actor, ev, depth, bt, nbt);
}
static void do_yield(int actor, int ev, OptEv e)
{
    if(!e) return;
    vs_log("[\"Yield\",%d,%d]", actor, ev);
    rg::yield(*e);
    ctx_resume(actor, ev);
}
static void do_yieldon(int actor, int ev)
{
    if(obs_get(&EVSTATE[ev])) do_yield(actor, ev, EV[ev]);
}
static void do_reach(int actor, int ev)
{
    if(!obs_cas(&EVSTATE[ev], 1, 2)) return;
    if(actor < 0)
    {
        pthread_mutex_lock(&MM);
        INFLIGHT = 1;
        pthread_mutex_unlock(&MM);
    }
    if(EVSHARED[ev] || (FIN_ONLY && actor < 0))
    {
        vs_log("[\"Reach\",%d,%d]", actor, ev);
        EV[ev]->notify();
        vs_log("[\"ReachR\",%d,%d]", actor, ev);
    }
    else
    {
        // the notifier holds the last handle
        rg::scheduler::EventPtr e = std::move(*EV[ev]);
        EV[ev].reset();
        vs_log("[\"Reach\",%d,%d]", actor, ev);
        e.notify();
        vs_log("[\"ReachR\",%d,%d]", actor, ev);
    }
    if(actor < 0)
    {
        pthread_mutex_lock(&MM);
        INFLIGHT = 0;
        pthread_cond_broadcast(&MC);
        pthread_mutex_unlock(&MM);
    }
}
static void mkres(int r)
{
    if(RD[r].kind == "io")
    {
        RIO[r].emplace(Cell{0, 0});
        BASE[r] = RIO[r]->get();
        E0[r] = E1[r] = 1;
    }
    else if(RD[r].kind == "vec")
    {
        RVEC[r].emplace((size_t) RD[r].d0, Cell{0, 0});
        BASE[r] = (*RVEC[r])->data();
        E0[r] = RD[r].d0;
        E1[r] = 1;
    }
    else
    {
        RARR[r].emplace(new Arr2());
        BASE[r] = &RARR[r]->operator->()->front()[0];
        E0[r] = NX;
        E1[r] = NY;
    }
}
static void rmres(int r)
{
    RIO[r].reset();
    RVEC[r].reset();
    RARR[r].reset();
    BASE[r] = 0;
}
static void do_demote(int tid, std::vector<long> const& a)
{
    std::vector<Acc> nw;
    for(size_t i = 0; i + 5 < a.size(); i += 6)
        nw.push_back(Acc{(int) a[i], (int) a[i + 1], a[i + 2], a[i + 3], a[i + 4], a[i + 5]});
    rg::TaskProperties::Patch::Builder pb;
    auto same = [](Acc const& x, Acc const& y) { return memcmp(&x, &y, sizeof x) == 0; };
    std::vector<Acc> addv, remv;
    for(auto& o : TD[tid].acc)
    {
        bool k = false;
        for(auto& n : nw) k |= same(o, n);
        if(!k) remv.push_back(o);
    }
    for(auto& n : nw)
    {
        bool k = false;
        for(auto& o : TD[tid].acc) k |= same(o, n);
        if(!k) addv.push_back(n);
    }
    for(auto& o : remv) pb.remove_resources({mkacc(o)});
    for(auto& n : addv) pb.add_resources({mkacc(n)});
    rg::TaskProperties::Patch patch = pb;
    vs_log("[\"Dem\",%d,%s]", tid, accstr(nw).c_str());
    bool ok = true;
    try { rg::update_properties(patch); }
    catch(std::runtime_error& e) { ok = false; }
    if(ok) TD[tid].acc = nw;
    vs_log("[\"DemR\",%d,%d]", tid, (int) ok);
}
static std::shared_ptr<rg::scheduler::IScheduler> mksched()
{
    if(SCHED == "tags")
        return rg::scheduler::make_tag_match_scheduler()
            .add({0}, std::make_shared<rg::scheduler::DefaultScheduler>())
            .add({1, 2}, std::make_shared<rg::scheduler::DefaultScheduler>());
    return std::make_shared<rg::scheduler::DefaultScheduler>();
}
static void do_init()
{
    vs_log("[\"Init\",%d]", WORKERS);
    if(SCHED == "default") rg::init(WORKERS);
    else rg::init(WORKERS, mksched());
    for(int r = 1; r <= NRES; ++r) if(RD[r].owner == 0) mkres(r);
}
static void do_barrier()
{
    for(int t = 1; t <= NTASK; ++t) do_drop(t);
    vs_log("[\"Bar\"]");
    rg::barrier();
    vs_log("[\"BarR\"]");
}
static void do_finalize()
{
    for(int t = 1; t <= NTASK; ++t) do_drop(t);
    // with explicit barrier first, resources can be destroyed while the arenas exist
    vs_log("[\"Bar\"]");
    rg::barrier();
    vs_log("[\"BarR\"]");
    pthread_mutex_lock(&MM);
    while(INFLIGHT) pthread_cond_wait(&MC, &MM);
    pthread_mutex_unlock(&MM);
    for(int r = 1; r <= NRES; ++r) rmres(r);
    for(int e = 0; e < NEXTEV; ++e)
    {
        EV[e].reset();
        if(EVSTATE[e] == 1) EVSTATE[e] = 2;
    }
    vs_log("[\"Fin\"]");
    rg::finalize();
    vs_log("[\"FinR\",%d]", vs_live_threads());
}
static void do_finalize_only()
{
    for(int t = 1; t <= NTASK; ++t) do_drop(t);
    vs_log("[\"Bar\"]");
    vs_log("[\"Fin\"]");
    rg::finalize();
    vs_log("[\"BarR\"]");
    vs_log("[\"FinR\",%d]", vs_live_threads());
    for(int r = 1; r <= NRES; ++r) rmres(r);
    for(int e = 0; e < NEXTEV; ++e)
    {
        EV[e].reset();
        if(EVSTATE[e] == 1) EVSTATE[e] = 2;
    }
}
static void exec(int actor, Cmd const& c)
{
    auto const& o = c.op;
    if(o == "submit") do_submit(actor, c.a[0]);
    else if(o == "mkev") { int id = c.a[0]; mkev(actor, id); }
    else if(o == "yield") { int id = c.a[0]; do_yield(actor, id, mkev(actor, id)); }
    else if(o == "yieldon") do_yieldon(actor, c.a[0]);
    else if(o == "reach") do_reach(actor, c.a[0]);
    else if(o == "get") do_get(actor, c.a[0]);
    else if(o == "drop") do_drop(c.a[0]);
    else if(o == "ready") do_ready(c.a[0]);
    else if(o == "demote") do_demote(actor, c.a);
    else if(o == "mkres") mkres(c.a[0]);
    else if(o == "rmres") rmres(c.a[0]);
    else if(o == "barrier") do_barrier();
    else if(o == "reinit")
    {
        do_finalize();
        WORKERS = c.a[0];
        do_init();
    }
    else if(o == "ctx")
    {
        int depth, bt[256], nbt;
        get_ctx(&depth, bt, &nbt);
        std::string s;
        for(int i = 0; i < nbt; ++i) s += (i ? "," : "") + std::to_string(bt[i]);
        bool ev = actor == 0 ? (bool) rg::create_event() : true;
        vs_log("[\"Ctx\",%d,%d,[%s],%d]", actor, depth, s.c_str(), (int) ev);
    }
    else if(o == "end") {}
    else { vs_log("[\"BadOp\"]"); }
}
static void wait_gate(int a)
{
    Actor& A = ACT[a];
    if(a == 0)
    {
        pthread_mutex_lock(&MM);
        A.waiting = true;
        while(A.waiting) pthread_cond_wait(&MC, &MM);
        pthread_mutex_unlock(&MM);
    }
    else
    {
        int id = 0;
        OptEv e = mkev(a, id);
        A.gate = id;
        A.waiting = true;
        do_yield(a, id, e);
    }
}
static void exec_actor(int a)
{
    Actor& A = ACT[a];
    while(A.pc < A.cmds.size())
    {
        if(A.cmds[A.pc].batch > A.granted) wait_gate(a);
        exec(a, A.cmds[A.pc++]);
    }
    // a task gives up the futures of its children that it did not use
    if(a > 0)
        for(int t = 1; t <= NTASK; ++t)
            if(TD[t].parent == a) do_drop(t);
}
static void grant(int a, long b)
{
    Actor& A = ACT[a];
    A.granted = b;
    A.waiting = false;
    if(a == 0)
    {
        pthread_mutex_lock(&MM);
        pthread_cond_broadcast(&MC);
        pthread_mutex_unlock(&MM);
    }
    else
        do_reach(-1, A.gate);
}
static bool MAIN_DONE;
static void* controller(void*)
{
    while(true)
    {
        vs_wait_quiescent();
        if(MAIN_DONE) return 0;
        vs_log("[\"Q\"]");
        // smallest pending batch among the actors that wait and the controller's own commands
        long b = -1;
        auto consider = [&](Actor& A, bool w)
        {
            if(w && A.pc < A.cmds.size() && (b < 0 || A.cmds[A.pc].batch < b)) b = A.cmds[A.pc].batch;
        };
        for(int a = 0; a <= NTASK; ++a) consider(ACT[a], ACT[a].waiting);
        consider(CTL, true);
        if(b >= 0)
        {
            std::vector<int> who;
            for(int a = 0; a <= NTASK; ++a)
                if(ACT[a].waiting && ACT[a].cmds[ACT[a].pc].batch == b) who.push_back(a);
            if(CTL.pc < CTL.cmds.size() && CTL.cmds[CTL.pc].batch == b) who.push_back(-1);
            while(!who.empty())
            {
                size_t k = vs_rand(who.size());
                int a = who[k];
                who.erase(who.begin() + k);
                if(a >= 0) grant(a, b);
                else
                    while(CTL.pc < CTL.cmds.size() && CTL.cmds[CTL.pc].batch == b)
                    {
                        exec(-1, CTL.cmds[CTL.pc]);
                        CTL.pc++;
                    }
            }
            continue;
        }
        // drain: reach what is left
        bool any = false;
        for(int e = 0; e < NEXTEV; ++e)
            if(obs_get(&EVSTATE[e]) == 1) { do_reach(-1, e); any = true; }
        if(!any)
        {
            vs_log("[\"Stuck\"]");
            vs_finish(3);
        }
    }
}
extern "C" void run_note_stat();
static void run_program(void*)
{
    spdlog::set_level(spdlog::level::off);
    vs_set_pus(PUS);
    NEXTEV = 1000;
    pthread_t th;
    pthread_create(&th, 0, controller, 0);
    do_init();
    exec_actor(0);
    if(FIN_ONLY) do_finalize_only();
    else do_finalize();
    uint64_t live, bad;
    vs_arena_stats(0, 0, 0, &live, &bad);
    vs_log("[\"Mem\",%ld]", (long) live);
    MAIN_DONE = true;
}

int main(int argc, char** argv)
{
    FILE* in = fopen(argv[1], "r");
    FILE* out = fopen(argv[2], "w");
    if(!in || !out) return 2;
    char* line = 0;
    size_t cap = 0;
    long pid = 0;
    while(getline(&line, &cap, in) > 0)
    {
        std::istringstream s(line);
        std::string k;
        s >> k;
        if(k == "P")
        {
            for(auto& a : ACT) a = Actor();
            for(auto& t : TD) t = TaskDef();
            CTL = Actor();
            memset(EVSHARED, 0, sizeof EVSHARED);
            NRES = NTASK = 0;
            int fo = 0;
            s >> pid >> WORKERS >> PUS >> SCHED >> NRES >> NTASK >> fo;
            FIN_ONLY = fo;
        }
        else if(k == "R")
        {
            int r;
            s >> r;
            s >> RD[r].kind >> RD[r].d0 >> RD[r].owner;
        }
        else if(k == "T")
        {
            int t, n;
            s >> t;
            s >> TD[t].flags >> TD[t].tags >> n;
            for(int i = 0; i < n; ++i)
            {
                Acc a;
                memset(&a, 0, sizeof a);
                s >> a.r >> a.mode >> a.lo0 >> a.hi0 >> a.lo1 >> a.hi1;
                TD[t].acc.push_back(a);
            }
        }
        else if(k == "A")
        {
            int a;
            Cmd c;
            s >> a >> c.batch >> c.op;
            long x;
            while(s >> x) c.a.push_back(x);
            if(c.op == "yieldon") EVSHARED[c.a[0]] = true;
            (a < 0 ? CTL : ACT[a]).cmds.push_back(c);
        }
        else if(k == "S")
        {
            if(!budget_left()) break;
            std::string rest;
            std::getline(s, rest);
            long id;
            vs_config c = parse_cfg(rest.c_str(), &id);
            run_forked(c, run_program, 0, "\"p\":" + std::to_string(pid) + ",\"id\":" + std::to_string(id) + ",\"w\":" + std::to_string(WORKERS) + ",\"n\":" + std::to_string(NTASK), out);
        }
    }
    fclose(out);
    return 0;
}
