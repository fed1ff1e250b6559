// TagMatch scheduler. P <pid> unit|rt <workers> <sub kind:mask>...   kinds: 0 default scheduler, 1 own queue, 2 own queue whose tasks only wait for the start of its own earlier ones
// unit: calls on a TagMatch of recording schedulers; rt: real programs
#include <redGrapes/redGrapes.hpp>
#include <redGrapes/resource/ioresource.hpp>
#include <redGrapes/scheduler/default_scheduler.hpp>
#include <redGrapes/scheduler/tag_match.hpp>
#include <redGrapes/dispatch/thread/worker_pool.hpp>
#include "script.h"
#include "obs.h"
#include <deque>
#include <map>
#include <set>
#include <mutex>
namespace rg = redGrapes;
using rg::scheduler::IScheduler;
static std::string tagstr(unsigned long m)
{
    std::string s = "[";
    for(int i = 0; i < 64; ++i) if(m >> i & 1) s += (s.size() > 1 ? "," : "") + std::to_string(i);
    return s + "]";
}
static int label(rg::Task const& t) { return atoi(t.label.c_str()); }
static int NSUB;
static unsigned long MASK[16];
static bool UNIT;

struct Sub : IScheduler
{
    int k, kind;
    std::shared_ptr<rg::scheduler::DefaultScheduler> def;
    std::mutex m;
    std::deque<rg::Task*> fresh, ready;
    std::set<int> asleep;
    Sub(int k, int kind) : k(k), kind(kind) { if(kind == 0) def = std::make_shared<rg::scheduler::DefaultScheduler>(); }
    void kick()
    {
        if(UNIT) return;
        auto& p = *rg::SingletonContext::get().worker_pool;
        for(size_t w = 0; w < p.size(); ++w) p.get_worker(w).wake();
    }
    void idle() { if(def) def->idle(); }
    void emplace_task(rg::Task& t)
    {
        vs_log("[\"Em\",%d,%d]", k, label(t));
        if(def) return def->emplace_task(t);
        { std::lock_guard<std::mutex> l(m); fresh.push_back(&t); }
        kick();
    }
    void activate_task(rg::Task& t)
    {
        vs_log("[\"Act\",%d,%d]", k, label(t));
        if(def) return def->activate_task(t);
        { std::lock_guard<std::mutex> l(m); ready.push_back(&t); }
        kick();
    }
    bool task_dependency_type(rg::Task const& a, rg::Task const& b)
    {
        bool r = def ? def->task_dependency_type(a, b) : kind == 2 && (a.required_scheduler_tags.to_ulong() & ~MASK[k]) == 0;
        for(int j = 1; kind == 2 && j < k && r; ++j) if((a.required_scheduler_tags.to_ulong() & ~MASK[j]) == 0) r = false;
        vs_log("[\"Dep\",%d,%d,%d,%d]", k, label(a), label(b), (int) r);
        return r;
    }
    rg::Task* steal_task(rg::dispatch::thread::Worker& w)
    {
        if(def) return def->steal_task(w);
        for(;;)
        {
            rg::Task* t = nullptr;
            bool init = false;
            {
                std::lock_guard<std::mutex> l(m);
                if(ready.size()) { t = ready.front(); ready.pop_front(); }
                else if(fresh.size()) { t = fresh.front(); fresh.pop_front(); init = true; }
            }
            if(!t || UNIT) return t;
            if(init)
            {
                t->pre_event.up();
                t->init_graph();
                if(!t->get_pre_event().notify(true)) continue;
            }
            vs_log("[\"Take\",%d,%d]", k, label(*t));
            return t;
        }
    }
    void wake_all()
    {
        if(UNIT) vs_log("[\"WakeAll\",%d]", k);
        if(def) def->wake_all();
        asleep.clear();
    }
    bool wake(rg::scheduler::WakerId id)
    {
        if(def) return def->wake(id);
        if(UNIT && asleep.erase(id)) { vs_log("[\"Wake\",%d,%d]", k, (int) id); return true; }
        return false;
    }
};
static std::vector<std::shared_ptr<Sub>> SUB;
static std::shared_ptr<IScheduler> build(rg::scheduler::TagMatch<64>* tm)
{
    auto b = rg::scheduler::make_tag_match_scheduler();
    SUB.clear();
    for(int k = 1; k <= NSUB; ++k)
    {
        auto& s = SC.arg[1 + k];
        int kind = s[0] - '0';
        unsigned long m = strtoul(s.c_str() + 2, 0, 10);
        MASK[k] = m;
        SUB.push_back(std::make_shared<Sub>(k, kind));
        vs_log("[\"Sub\",%d,%s]", k, tagstr(m).c_str());
        if(tm) tm->add_scheduler(std::bitset<64>(m), SUB.back());
        else
        {
            // the builder takes a list
            int t[64], n = 0;
            for(int i = 0; i < 64; ++i) if(m >> i & 1) t[n++] = i;
            auto u = [&](int i) { return (unsigned) t[i]; };
            if(n == 0) b.add({}, SUB.back());
            else if(n == 1) b.add({u(0)}, SUB.back());
            else if(n == 2) b.add({u(0), u(1)}, SUB.back());
            else if(n == 3) b.add({u(0), u(1), u(2)}, SUB.back());
            else b.tag_match->add_scheduler(std::bitset<64>(m), SUB.back());
        }
    }
    return b;
}

struct TD { unsigned long tags; int res; int parent; std::vector<int> kids; };
static std::map<int, TD> T;
static std::vector<rg::IOResource<int>>* R;
static void submit(int t);
static void body(int t)
{
    vs_log("[\"Run\",%d]", t);
    for(int c : T[t].kids) submit(c);
    vs_log("[\"End\",%d]", t);
}
static void submit(int t)
{
    auto& d = T[t];
    vs_log("[\"EmC\",%d,%s,%d,%d]", t, tagstr(d.tags).c_str(), d.res, d.parent);
    bool ok = true;
    try
    {
        if(d.res) rg::emplace_task([t](auto) { body(t); }, (*R)[d.res - 1].write()).label(std::to_string(t).c_str()).scheduling_tags(std::bitset<64>(d.tags)).submit();
        else rg::emplace_task([t]() { body(t); }).label(std::to_string(t).c_str()).scheduling_tags(std::bitset<64>(d.tags)).submit();
    }
    catch(std::runtime_error&) { ok = false; }
    vs_log("[\"EmR\",%d,%d]", t, (int) ok);
}
template<class F>
static int tryit(F&& f) { try { return f(); } catch(std::runtime_error&) { return -1; } }
static void unit()
{
    rg::init(1);
    rg::scheduler::TagMatch<64> tm;
    build(&tm);
    struct Nop { void operator()() {} };
    std::map<int, rg::FunTask<Nop>*> task;
    auto& w = rg::SingletonContext::get().worker_pool->get_worker(0);
    for(auto& o : SC.th[0])
    {
        auto a = [&](size_t i) { return i < o.a.size() ? o.a[i] : 0; };
        int i = a(0);
        if(o.op == "task")
        {
            task[i] = new rg::FunTask<Nop>();
            task[i]->label = std::to_string(i);
            task[i]->required_scheduler_tags = std::bitset<64>((unsigned long) a(1));
            vs_log("[\"Task\",%d,%s]", i, tagstr(a(1)).c_str());
        }
        else if(o.op == "em")
        {
            vs_log("[\"EmC\",%d,[],0,0]", i);
            int r = tryit([&] { tm.emplace_task(*task[i]); return 1; });
            vs_log("[\"EmR\",%d,%d]", i, r == 1);
        }
        else if(o.op == "act")
        {
            vs_log("[\"ActC\",%d]", i);
            int r = tryit([&] { tm.activate_task(*task[i]); return 1; });
            vs_log("[\"ActR\",%d,%d]", i, r == 1);
        }
        else if(o.op == "dep")
        {
            int j = a(1);
            vs_log("[\"DepC\",%d,%d]", i, j);
            int r = tryit([&] { return (int) tm.task_dependency_type(*task[i], *task[j]); });
            vs_log("[\"DepR\",%d,%d,%d]", i, j, r);
        }
        else if(o.op == "steal")
        {
            rg::Task* t = tm.steal_task(w);
            vs_log("[\"StR\",%d]", t ? label(*t) : 0);
        }
        else if(o.op == "sleep") { SUB[i - 1]->asleep.insert(a(1)); vs_log("[\"Sleep\",%d,%ld]", i, a(1)); }
        else if(o.op == "wake")
        {
            vs_log("[\"WakeC\",%d]", i);
            bool r = tm.wake(i);
            vs_log("[\"WakeR\",%d,%d]", i, (int) r);
        }
        else if(o.op == "wakeall")
        {
            vs_log("[\"WakeAllC\"]");
            tm.wake_all();
            vs_log("[\"WakeAllR\"]");
        }
    }
    for(auto& t : task) delete t.second;
    SUB.clear();
    tm.sub_schedulers.clear();
    rg::finalize();
}
static void rt()
{
    for(auto& o : SC.th[0]) if(o.op == "task")
    {
        T[o.a[0]] = TD{(unsigned long) o.a[1], (int) o.a[2], (int) o.a[3], {}};
        if(o.a[3]) T[o.a[3]].kids.push_back(o.a[0]);
    }
    rg::init(SC.num(1), build(nullptr));
    {
        std::vector<rg::IOResource<int>> res(3);
        R = &res;
        for(auto& o : SC.th[0])
        {
            if(o.op == "task" && !o.a[3]) submit(o.a[0]);
            if(o.op == "barrier") { rg::barrier(); vs_log("[\"BarR\"]"); }
        }
        rg::barrier();
        vs_log("[\"BarR\"]");
    }
    SUB.clear();
    rg::finalize();
}
static void run(void*)
{
    vs_set_pus(4);
    T.clear();
    NSUB = SC.arg.size() - 2;
    UNIT = SC.arg[0] == "unit";
    if(UNIT) unit(); else rt();
}
int main(int argc, char** argv) { return script_main(argc, argv, run); }
