// ChunkedList under concurrent use. P <pid> <chunk size>
#include <redGrapes/util/chunked_list.hpp>
#include "script.h"
#include "obs.h"
#include <hwloc.h>
#include <map>
#include <memory>
#include <thread>
static int QUIET;
struct Elem
{
    long v;
    long chk;
    Elem(long v) : v(v), chk(v * 7 + 3) {}
    Elem(Elem const& o) : v(o.v), chk(o.chk) {}
    ~Elem();
    bool operator==(Elem const& o) const { return v == o.v; }
    bool intact() const { return chk == v * 7 + 3; }
};
Elem::~Elem()
{
    if(vs_region_of((uintptr_t) this, 0, 0, 0) >= 0 && !QUIET)
        vs_log("[\"Dtor\",%ld,%d]", v, (int) (chk == v * 7 + 3));
    chk = -1;
}
static long LIVE;
struct TestAlloc
{
    redGrapes::memory::Block allocate(size_t n) const
    {
        obs_inc((int*) &LIVE);
        return redGrapes::memory::Block{(uintptr_t) hwloc_alloc(nullptr, n), n};
    }
    void deallocate(redGrapes::memory::Block b)
    {
        int x;
        do x = obs_get((int*) &LIVE); while(!obs_cas((int*) &LIVE, x, x - 1));
        hwloc_free(nullptr, (void*) b.ptr, b.len);
    }
};
template<size_t N> struct Run
{
    using List = redGrapes::ChunkedList<Elem, N, TestAlloc>;
    using It = typename List::MutBackwardIterator;
    static List* L;
    static void see(int t, It& it) { Elem& e = *it; vs_log("[\"See\",%d,%ld,%d]", t, e.v, (int) e.intact()); }
    static void thread_body(int t)
    {
        std::map<long, std::unique_ptr<It>> slot;
        auto release = [&](long s) { if(slot.count(s)) { vs_log("[\"Rel\",%d,%ld]", t, s); slot.erase(s); } };
        auto iterate = [&](It& it, long rmv) {
            for(; it != L->rend();)
            {
                see(t, it);
                if(rmv >= 0 && (*it).v == rmv)
                {
                    vs_log("[\"RmC\",%d,%ld]", t, rmv);
                    L->remove(it);
                    vs_log("[\"RmR\",%d,%ld]", t, rmv);
                    vs_log("[\"Again\",%d,%d]", t, (int) (*it).intact());
                }
                vs_log("[\"Next\",%d]", t);
                ++it;
            }
            vs_log("[\"IterR\",%d]", t);
        };
        for(auto& o : SC.th[t])
        {
            long v = o.a.size() ? o.a[0] : 0;
            if(o.op == "push" || o.op == "hold")
            {
                Elem e(v);
                vs_log("[\"PushC\",%d,%ld]", t, v);
                auto p = std::make_unique<It>(L->push(e));
                bool ok = p->is_valid() && (**p).v == v && (**p).intact();
                vs_log("[\"PushR\",%d,%ld,%d]", t, v, (int) ok);
                if(o.op == "hold") { slot[v] = std::move(p); vs_log("[\"Hold\",%d,%ld,%ld]", t, v, v); }
            }
            else if(o.op == "rmh")
            {
                if(!slot.count(v)) continue;
                vs_log("[\"RmC\",%d,%ld]", t, v);
                L->remove(*slot[v]);
                vs_log("[\"RmR\",%d,%ld]", t, v);
            }
            else if(o.op == "look") { if(slot.count(v)) vs_log("[\"Look\",%d,%ld,%ld,%d]", t, v, (**slot[v]).v, (int) (**slot[v]).intact()); }
            else if(o.op == "drop") release(v);
            else if(o.op == "dup")
            {
                // a copy of a kept position keeps the element as well
                if(!slot.count(v)) continue;
                auto c = std::make_unique<It>(*slot[v]);
                vs_log("[\"Hold\",%d,%ld,%ld]", t, v + 1000, v);
                release(v + 1000);
                slot[v + 1000] = std::move(c);
            }
            else if(o.op == "era")
            {
                Elem e(v);
                vs_log("[\"EraC\",%d,%ld]", t, v);
                L->erase(e);
                vs_log("[\"EraR\",%d,%ld]", t, v);
            }
            else if(o.op == "iter" || o.op == "rm")
            {
                vs_log("[\"IterC\",%d]", t);
                It it = L->rbegin();
                iterate(it, o.op == "rm" ? v : -1);
            }
            else if(o.op == "scan")
            {
                // walk v elements, keep the position, go on with "cont"
                vs_log("[\"IterC\",%d]", t);
                auto p = std::make_unique<It>(L->rbegin());
                for(long k = 0; *p != L->rend(); ++k)
                {
                    see(t, *p);
                    if(k == v) break;
                    vs_log("[\"Next\",%d]", t);
                    ++*p;
                }
                if(*p != L->rend()) { slot[-1] = std::move(p); }
                else vs_log("[\"IterR\",%d]", t);
            }
            else if(o.op == "cont")
            {
                if(!slot.count(-1)) continue;
                vs_log("[\"Again\",%d,%d]", t, (int) (**slot[-1]).intact());
                vs_log("[\"Next\",%d]", t);
                ++*slot[-1];
                iterate(*slot[-1], -1);
                slot.erase(-1);
            }
        }
        if(slot.count(-1)) { vs_log("[\"Stop\",%d]", t); slot.erase(-1); }
        while(slot.size()) release(slot.begin()->first);
    }
    static std::string seq(List& l)
    {
        std::string s = "[";
        for(auto it = l.rbegin(); it != l.rend(); ++it) s += (s.size() > 1 ? "," : "") + std::to_string((*it).v);
        return s + "]";
    }
    static void body()
    {
        auto l = std::make_unique<List>(TestAlloc());
        L = l.get();
        std::vector<std::thread> th;
        for(size_t t = 1; t < SC.threads(); ++t) th.emplace_back(thread_body, t);
        thread_body(0);
        for(auto& t : th) t.join();
        vs_log("[\"Fin\",%s]", seq(*l).c_str());
        seq(*l);
        vs_log("[\"Chunks\",%d,%zu]", obs_get((int*) &LIVE), N);
        QUIET = 1;
        {
            List c(TestAlloc(), *l);
            vs_log("[\"Copy\",%s]", seq(c).c_str());
            c.push(Elem(999));
            List m(std::move(c));
            vs_log("[\"Move\",%s]", seq(m).c_str());
        }
        QUIET = 0;
        vs_log("[\"Fin\",%s]", seq(*l).c_str());
        vs_log("[\"ListD\"]");
        l.reset();
        vs_log("[\"Mem\",%d]", obs_get((int*) &LIVE));
    }
};
template<size_t N> typename Run<N>::List* Run<N>::L;
static void body(void*)
{
    switch(SC.num(0))
    {
    case 1: Run<1>::body(); break;
    case 2: Run<2>::body(); break;
    case 3: Run<3>::body(); break;
    case 4: Run<4>::body(); break;
    default: Run<8>::body(); break;
    }
}
int main(int argc, char** argv) { return script_main(argc, argv, body); }
