// Declared properties of tasks, and rights of children. Thread t of the script is the body of task t (0: main).
//   mk r kind | cp r q | same r q | sub t flags tags pat n (r mode lo0 hi0 lo1 hi1 form)* | dem n (r mode lo0 hi0 lo1 hi1)* | barrier
// form: 0 add_resource, 1 resources({..}), 2.. argument of type form - 2
#include <redGrapes/redGrapes.hpp>
#include <redGrapes/resource/fieldresource.hpp>
#include <redGrapes/resource/ioresource.hpp>
#include "script.h"
#include <cstdlib>
#include <deque>
#include <memory>
#include <optional>
#include <variant>
namespace rg = redGrapes;
using namespace rg::access;
using Vec = std::vector<int>; using Arr = std::array<std::array<int, 3>, 3>;
using IO = rg::IOResource<int>; using FV = rg::FieldResource<Vec>; using FA = rg::FieldResource<Arr>;
using IOR = rg::ioresource::ReadGuard<int>; using IOW = rg::ioresource::WriteGuard<int>;
using VR = rg::fieldresource::ReadGuard<Vec>; using VW = rg::fieldresource::WriteGuard<Vec>;
using AR = rg::fieldresource::ReadGuard<Arr>; using AW = rg::fieldresource::WriteGuard<Arr>;
struct Acc { long r, m, l0, h0, l1, h1; bool whole() const { return h0 > 100000; } };
static const int MR = 40, MT = 40;
static std::optional<const IO> RIO[MR];
static std::optional<const FV> RFV[MR];
static std::optional<const FA> RFA[MR];
static void const* OBJ[MR];
static std::vector<Acc> UNI;              // all accesses the script mentions
static std::vector<Acc> CUR[MT];          // declared by the running task
static thread_local int SUBMITTING;
extern "C" void __assert_fail(const char* e, const char* f, unsigned l, const char* fn) noexcept
{
    if(SUBMITTING)
    {
        vs_log("[\"Refused\",%d]", SUBMITTING);
        vs_log("[\"Done\"]");
        vs_finish(0);
    }
    abort();
}
static std::array<size_t, 1> i1(long a) { return {(size_t) a}; }
static std::array<size_t, 2> i2(long a, long b) { return {(size_t) a, (size_t) b}; }
static VW vw(Acc const& a) { auto& f = *RFV[a.r]; if(a.whole()) return f.write(); if(a.h0 == a.l0 + 1 && a.m == 0) return f.at(i1(a.l0)); return f.area(i1(a.l0), i1(a.h0)); }
static VR vr(Acc const& a) { auto& f = *RFV[a.r]; if(a.whole()) return f.read(); if(a.l0 % 2) return f.read().area(i1(a.l0), i1(a.h0)); return f.area(i1(a.l0), i1(a.h0)).read(); }
static AW aw(Acc const& a) { auto& f = *RFA[a.r]; if(a.whole()) return f.write(); return f.area(i2(a.l0, a.l1), i2(a.h0, a.h1)).write(); }
static AR ar(Acc const& a) { auto& f = *RFA[a.r]; if(a.whole()) return f.read(); if(a.l0 % 2) return f.read().area(i2(a.l0, a.l1), i2(a.h0, a.h1)); return f.area(i2(a.l0, a.l1), i2(a.h0, a.h1)).read(); }
// a fresh description of an access, without the guards
static rg::ResourceAccess plain(Acc const& a)
{
    IOAccess m((IOAccess::Mode) a.m);
    if(RIO[a.r]) return RIO[a.r]->make_access(m);
    if(RFV[a.r]) return RFV[a.r]->make_access(a.whole() ? FieldAccess<1>(m) : FieldAccess<1>(m, ArrayAccess<AreaAccess, 1, And_t>({AreaAccess({(size_t) a.l0, (size_t) a.h0})})));
    return RFA[a.r]->make_access(a.whole() ? FieldAccess<2>(m) : FieldAccess<2>(m, ArrayAccess<AreaAccess, 2, And_t>({AreaAccess({(size_t) a.l0, (size_t) a.h0}), AreaAccess({(size_t) a.l1, (size_t) a.h1})})));
}
static rg::ResourceAccess acc(Acc const& a)
{
    if(a.m > 1) return plain(a);
    if(RIO[a.r]) return a.m ? (rg::ResourceAccess) RIO[a.r]->read() : (rg::ResourceAccess) RIO[a.r]->write();
    if(RFV[a.r]) return a.m ? (rg::ResourceAccess) vr(a) : (rg::ResourceAccess) vw(a);
    return a.m ? (rg::ResourceAccess) ar(a) : (rg::ResourceAccess) aw(a);
}
static std::string str(Acc const& a)
{
    char b[160];
    snprintf(b, sizeof b, "[%ld,%ld,%ld,%ld,%ld,%ld]", a.r, a.m, a.l0, a.h0, a.l1, a.h1);
    return b;
}
static bool exists(long r) { return RIO[r] || RFV[r] || RFA[r]; }
// which of the accesses the script mentions is it?
static std::string which(rg::ResourceAccess const& x)
{
    std::string s;
    for(auto& u : UNI) if(exists(u.r) && x == plain(u)) s += (s.size() ? "," : "") + str(u);
    return "[" + s + "]";
}
static std::string obj(void const* p) { std::string s; for(int r = 0; r < MR; ++r) if(OBJ[r] == p && exists(r)) s += (s.size() ? "," : "") + std::to_string(r); return "[" + s + "]"; }
template<class T> static std::string guard(T const* p, rg::ResourceAccess a, bool c) { return "[\"g\"," + obj(p) + "," + which(a) + "," + std::to_string((int) c) + "]"; }
static std::string show(IOW const& g) { return guard(g.get(), g, std::is_const_v<std::remove_reference_t<decltype(*g)>>); }
static std::string show(IOR const& g) { return guard(g.get(), g, std::is_const_v<std::remove_reference_t<decltype(*g)>>); }
static std::string show(VW const& g) { return guard(g.operator->(), g, std::is_const_v<std::remove_reference_t<decltype(*g.operator->())>>); }
static std::string show(VR const& g) { return guard(g.operator->(), g, std::is_const_v<std::remove_reference_t<decltype(*g.operator->())>>); }
static std::string show(AW const& g) { return guard(g.operator->(), g, std::is_const_v<std::remove_reference_t<decltype(*g.operator->())>>); }
static std::string show(AR const& g) { return guard(g.operator->(), g, std::is_const_v<std::remove_reference_t<decltype(*g.operator->())>>); }
static std::string show(rg::ResourceAccess const& a) { return "[\"a\"," + which(a) + "]"; }
static std::string show(int v) { return "[\"v\"," + std::to_string(v) + "]"; }
static std::string show(std::string const& s) { return "[\"s\",\"" + s + "\"]"; }
static std::string show(std::shared_ptr<int> const& p) { return "[\"p\"," + (p ? std::to_string(*p) : "-1") + "]"; }
template<class T> static std::string show(std::reference_wrapper<T> const& r) { return show(r.get()); }
static void inspect(int tid)
{
    auto& t = rg::backtrace()[0].get();
    std::string s, tg;
    for(auto e = t.access_list.rbegin(); e != t.access_list.rend(); ++e) s += (s.size() ? "," : "") + which(*e);
    for(int b = 0; b < 64; ++b) if(t.required_scheduler_tags.test(b)) tg += (tg.size() ? "," : "") + std::to_string(b);
    vs_log("[\"Props\",%d,[%s],\"%s\",[%s],%u,%d]", tid, s.c_str(), t.label.c_str(), tg.c_str(), t.task_id, (int) t.enable_stack_switching);
}
static void exec_thread(int t);
struct Body
{
    int tid;
    template<class... A>
    void operator()(A&&... a)
    {
        std::string s;
        ((s += (s.size() ? "," : "") + show(a)), ...);
        vs_log("[\"Run\",%d,%u,[%s]]", tid, rg::scope_depth(), s.c_str());
        inspect(tid);
        exec_thread(tid);
        vs_log("[\"End\",%d]", tid);
    }
};
using RA = rg::ResourceAccess;
template<class T> using RW = std::reference_wrapper<T>;
using Arg = std::variant<IOR, IOW, VR, VW, AR, AW, RA, RW<const IO>, RW<const FV>, RW<const FA>, RW<IOR>, RW<IOW>, RW<VR>, RW<VW>, RW<AR>, RW<const AW>, RW<RA>, RW<const RA>>;
static std::deque<Arg> KEEP[MT];          // referenced objects
static int CELL[MT];
static Arg arg(int tid, int type, Acc const& a)
{
    auto& k = KEEP[tid];
    switch(type)
    {
    case 0: return RIO[a.r]->read();
    case 1: return RIO[a.r]->write();
    case 2: return vr(a);
    case 3: return vw(a);
    case 4: return ar(a);
    case 5: return aw(a);
    case 6: return acc(a);
    case 7: return std::cref(*RIO[a.r]);
    case 8: return std::cref(*RFV[a.r]);
    case 9: return std::cref(*RFA[a.r]);
    case 10: return std::ref(std::get<IOR>(k.emplace_back(RIO[a.r]->read())));
    case 11: return std::ref(std::get<IOW>(k.emplace_back(RIO[a.r]->write())));
    case 12: return std::ref(std::get<VR>(k.emplace_back(vr(a))));
    case 13: return std::ref(std::get<VW>(k.emplace_back(vw(a))));
    case 14: return std::ref(std::get<AR>(k.emplace_back(ar(a))));
    case 15: return std::cref(std::get<AW>(k.emplace_back(aw(a))));
    case 16: return std::ref(std::get<RA>(k.emplace_back(acc(a))));
    default: return std::cref(std::get<RA>(k.emplace_back(acc(a))));
    }
}
struct Sub { int tid; long flags; unsigned long tags; std::vector<std::pair<Acc, int>> decl; };
template<class B>
static void finish(B&& b, Sub const& s)
{
    auto label = [&] { std::string l = "t" + std::to_string(s.tid); b.label(l.c_str()); };
    auto tags = [&] {
        if(!s.tags) return;
        if(s.flags & 2)
        {
            // one at a time
            for(unsigned k = 0; k < 64; ++k) if(s.tags >> k & 1) b.scheduling_tags({k});
        }
        else b.scheduling_tags(std::bitset<64>(s.tags));
    };
    if(s.flags & 4) { label(); tags(); }
    std::vector<Acc> l;
    for(auto& d : s.decl) if(d.second == 1) l.push_back(d.first);
    auto lst = [&] {
        if(l.size() == 1) b.resources({acc(l[0])});
        if(l.size() == 2) b.resources({acc(l[0]), acc(l[1])});
        if(l.size() == 3) b.resources({acc(l[0]), acc(l[1]), acc(l[2])});
        if(l.size() >= 4) b.resources({acc(l[0]), acc(l[1]), acc(l[2]), acc(l[3])});
        for(size_t i = 4; i < l.size(); ++i) b.resources({acc(l[i])});
    };
    if(s.flags & 8) lst();
    for(auto& d : s.decl) if(d.second == 0) b.add_resource(acc(d.first));
    if(!(s.flags & 8)) lst();
    if(!(s.flags & 4)) { label(); tags(); }
    if(s.flags & 1) b.enable_stack_switching();
    SUBMITTING = s.tid;
    vs_log("[\"Try\",%d]", s.tid);
    try
    {
        // the builder may be handed on before, and need not be asked to submit
        auto last = [&](auto& x) { if(s.flags & 64) { auto y = std::move(x); } else x.submit(); };
        if(s.flags & 16) { auto c = std::move(b); last(c); }
        else if(s.flags & 32) { std::decay_t<B> c(b); last(c); }
        else last(b);
    }
    catch(std::exception&)
    {
        vs_log("[\"Refused\",%d]", s.tid);
        vs_log("[\"Done\"]");
        vs_finish(0);
    }
    SUBMITTING = 0;
    vs_log("[\"Acc\",%d]", s.tid);
}
template<class T> constexpr bool few = std::is_same_v<T, IOR> || std::is_same_v<T, IOW> || std::is_same_v<T, VW> || std::is_same_v<T, RA> || std::is_same_v<T, RW<VR>>;
static void submit(Sub const& s, int pat)
{
    std::vector<Arg> av;
    for(auto& d : s.decl) if(d.second >= 2) av.push_back(arg(s.tid, d.second - 2, d.first));
    int tid = s.tid;
    if(pat == 0)
    {
        finish(rg::emplace_task(Body{tid}), s);
        return;
    }
    if(pat == 5)
    {
        std::string str = "l" + std::to_string(tid);
        std::string const cstr = "c" + std::to_string(tid);
        int v = tid * 3;
        CELL[tid] = tid + 100;
        finish(rg::emplace_task(Body{tid}, v, std::string("r"), str, cstr, std::ref(CELL[tid]), std::make_shared<int>(tid), 7u), s);
        CELL[tid] = tid + 200;
        v = -1;
        str = "gone";
        return;
    }
    if(pat == 7 || pat == 8)
    {
        // the resource itself
        Acc x;
        for(auto& d : s.decl) if(d.second >= 2) x = d.first;
        auto go = [&](auto const& r) {
            if(pat == 7) { finish(rg::emplace_task(Body{tid}, r), s); return; }
            auto copy = r;
            finish(rg::emplace_task(Body{tid}, copy, tid * 3), s);
        };
        if(RIO[x.r]) go(*RIO[x.r]);
        else if(RFV[x.r]) go(*RFV[x.r]);
        else go(*RFA[x.r]);
        return;
    }
    std::visit([&](auto& a) {
        using A = std::decay_t<decltype(a)>;
        if(pat == 6)
        {
            auto const& c = a;
            if(tid % 2) finish(rg::emplace_task(Body{tid}, a), s);
            else finish(rg::emplace_task(Body{tid}, c), s);
        }
        else if(pat == 1) finish(rg::emplace_task(Body{tid}, std::move(a)), s);
        else if constexpr(few<A>)
        {
            if(pat == 3)
            {
                int v = tid * 3;
                finish(rg::emplace_task(Body{tid}, std::move(a), v, std::string("x") + std::to_string(tid)), s);
            }
            else if(pat == 4)
            {
                if(auto* c = std::get_if<A>(&av[1]))
                    finish(rg::emplace_task(Body{tid}, std::move(a), std::make_shared<int>(tid), std::move(*c), tid * 5), s);
                else vs_log("[\"BadOp\"]");
            }
            else
                std::visit([&](auto& c) {
                    using C = std::decay_t<decltype(c)>;
                    if constexpr(few<C>) finish(rg::emplace_task(Body{tid}, std::move(a), std::move(c)), s);
                    else vs_log("[\"BadOp\"]");
                }, av[1]);
        }
        else vs_log("[\"BadOp\"]");
    }, av[0]);
}
static void mk(int r, int kind)
{
    if(kind == 0) { RIO[r].emplace(r); OBJ[r] = RIO[r]->get(); }
    else if(kind == 1) { RFV[r].emplace((size_t) 4, 0); OBJ[r] = RFV[r]->operator->(); }
    else { RFA[r].emplace(); OBJ[r] = RFA[r]->operator->(); }
}
static void cp(int r, int q)
{
    if(RIO[q]) { RIO[r].emplace(*RIO[q]); OBJ[r] = RIO[r]->get(); }
    else if(RFV[q]) { RFV[r].emplace(*RFV[q]); OBJ[r] = RFV[r]->operator->(); }
    else if(RFA[q]) { RFA[r].emplace(*RFA[q]); OBJ[r] = RFA[r]->operator->(); }
}
static Acc rd(std::vector<long> const& a, size_t i) { return Acc{a[i], a[i + 1], a[i + 2], a[i + 3], a[i + 4], a[i + 5]}; }
static std::string list(std::vector<Acc> const& v) { std::string s; for(auto& a : v) s += (s.size() ? "," : "") + str(a); return "[" + s + "]"; }
static void exec_thread(int t)
{
    if(t >= (int) SC.th.size()) return;
    for(auto& o : SC.th[t])
    {
        auto& a = o.a;
        if(o.op == "mk") { mk(a[0], a[1]); vs_log("[\"Mk\",%d,%ld]", t, a[0]); }
        else if(o.op == "cp") { cp(a[0], a[1]); vs_log("[\"Cp\",%ld,%ld]", a[0], a[1]); }
        else if(o.op == "same")
        {
            auto m = [&](long r) { return acc(Acc{r, 0, 0, RIO[r] ? 1l : 1000000l, 0, 1}); };
            auto x = m(a[0]), y = m(a[1]);
            vs_log("[\"Same\",%ld,%ld,%d,%d,%d,%d]", a[0], a[1], (int) x.is_same_resource(y), (int) (x == y), (int) rg::ResourceAccess::is_serial(x, y), (int) (x.resource_id() == y.resource_id()));
        }
        else if(o.op == "sub")
        {
            Sub s;
            s.tid = a[0]; s.flags = a[1]; s.tags = a[2];
            std::vector<Acc> d;
            std::string f;
            for(int k = 0; k < a[4]; ++k)
            {
                s.decl.push_back({rd(a, 5 + 7 * k), (int) a[11 + 7 * k]});
                d.push_back(s.decl.back().first);
                f += (k ? "," : "") + std::to_string(a[11 + 7 * k]);
            }
            CUR[s.tid] = d;
            std::string tg;
            for(int b = 0; b < 64; ++b) if(s.tags >> b & 1) tg += (tg.size() ? "," : "") + std::to_string(b);
            vs_log("[\"Sub\",%d,%d,%s,[%s],%ld,[%s],%ld]", s.tid, t, list(d).c_str(), tg.c_str(), a[3], f.c_str(), s.flags & 1);
            submit(s, a[3]);
        }
        else if(o.op == "dem")
        {
            std::vector<Acc> n;
            for(int k = 0; k < a[0]; ++k) n.push_back(rd(a, 1 + 6 * k));
            rg::TaskProperties::Patch::Builder pb;
            auto in = [](Acc const& x, std::vector<Acc> const& v) { for(auto& y : v) if(str(x) == str(y)) return true; return false; };
            for(auto& x : CUR[t]) if(!in(x, n)) pb.remove_resources({acc(x)});
            for(auto& x : n) if(!in(x, CUR[t])) pb.add_resources({acc(x)});
            rg::TaskProperties::Patch p = pb;
            int ok = 1;
            try { rg::update_properties(p); } catch(std::runtime_error&) { ok = 0; }
            if(ok) CUR[t] = n;
            vs_log("[\"Dem\",%d,%s,%d]", t, list(n).c_str(), ok);
            inspect(t);
        }
        else if(o.op == "barrier") { rg::barrier(); vs_log("[\"Bar\"]"); }
        else vs_log("[\"BadOp\"]");
    }
}
static void body(void*)
{
    spdlog::set_level(spdlog::level::off);
    vs_set_pus(4);
    for(auto& th : SC.th) for(auto& o : th)
    {
        size_t n = o.op == "sub" ? o.a[4] : o.op == "dem" ? o.a[0] : 0, w = o.op == "sub" ? 7 : 6, b = o.op == "sub" ? 5 : 1;
        for(size_t k = 0; k < n; ++k)
        {
            Acc x = rd(o.a, b + w * k);
            bool dup = false;
            for(auto& u : UNI) dup |= str(u) == str(x);
            if(!dup) UNI.push_back(x);
        }
    }
    rg::init(SC.num(0));
    exec_thread(0);
    rg::barrier();
    for(auto& k : KEEP) k.clear();
    for(int r = 0; r < MR; ++r) { RIO[r].reset(); RFV[r].reset(); RFA[r].reset(); }
    rg::finalize();
}
int main(int argc, char** argv) { return script_main(argc, argv, body); }
