// Access relations. P <pid>; ops of thread 0:
//   q type same da db a.. b..   relation of two accesses (values are ranks; default constructed if da/db)
//   add u res v.. | rm u res v.. | copy u w | cmp u w | sync u res | uniq u
#include <redGrapes/redGrapes.hpp>
#include <redGrapes/resource/access/field.hpp>
#include <redGrapes/resource/resource.hpp>
#include <redGrapes/resource/resource_user.hpp>
#include <redGrapes/task/task.hpp>
#include "script.h"
#include <map>
namespace rg = redGrapes;
using namespace rg::access;
static const int MAXRANK = 9;
static const size_t VAL[MAXRANK + 1] = {0, 1, 2, 3, 1000, 1ul << 31, (1ul << 32) + 1, 1ul << 63, ~0ul - 1, ~0ul};
static const long* P;
static bool DEF;
template<class T> struct Rd;
template<> struct Rd<IOAccess>
{
    static IOAccess get() { return IOAccess((IOAccess::Mode) *P++); }
    static std::string tree() { return "[\"io\"," + std::to_string(DEF ? -1 : *P++) + "]"; }
};
template<> struct Rd<AreaAccess>
{
    static AreaAccess get() { size_t a = VAL[*P++], b = VAL[*P++]; return AreaAccess(std::array<size_t, 2>{a, b}); }
    static std::string tree() { long a = DEF ? -1 : *P++, b = DEF ? -1 : *P++; return "[\"area\"," + std::to_string(a) + "," + std::to_string(b) + "]"; }
};
template<class O> static std::string opn() { return std::is_same_v<O, And_t> ? "\"and\"" : "\"or\""; }
template<class A, size_t N, class O> struct Rd<ArrayAccess<A, N, O>>
{
    static ArrayAccess<A, N, O> get() { std::array<A, N> x; for(auto& y : x) y = Rd<A>::get(); return ArrayAccess<A, N, O>(x); }
    static std::string tree() { std::string s = "[" + opn<O>(); for(size_t i = 0; i < N; ++i) s += "," + Rd<A>::tree(); return s + "]"; }
};
template<class A, class B, class O> struct Rd<CombineAccess<A, B, O>>
{
    static CombineAccess<A, B, O> get() { A a = Rd<A>::get(); B b = Rd<B>::get(); return CombineAccess<A, B, O>(a, b); }
    static std::string tree() { std::string a = Rd<A>::tree(); return "[" + opn<O>() + "," + a + "," + Rd<B>::tree() + "]"; }
};
// something a resource can be made of
template<class T> struct Pol : T { using T::T; Pol() {} Pol(T t) : T(t) {} };
template<class T>
static void query(std::vector<long> const& a)
{
    bool same = a[1], da = a[2], db = a[3];
    P = a.data() + 4;
    T x = da ? T() : Rd<T>::get();
    T y = db ? T() : Rd<T>::get();
    P = a.data() + 4;
    DEF = da; std::string tx = Rd<T>::tree();
    DEF = db; std::string ty = Rd<T>::tree();
    vs_log("[\"Rel\",%s,%s,%d,%d,%d,%d,%d,%d,%d]", tx.c_str(), ty.c_str(), (int) T::is_serial(x, y), (int) T::is_serial(y, x), (int) x.is_superset_of(y),
           (int) y.is_superset_of(x), (int) x.is_synchronizing(), (int) y.is_synchronizing(), (int) (x == y));
    rg::Resource<T> r, s;
    rg::ResourceAccess ra = r.make_access(x), rb = same ? rg::Resource<T>(r).make_access(y) : s.make_access(y);
    rg::ResourceAccess rc(rb);
    rg::ResourceAccess rd(ra);
    rd = rc;
    vs_log("[\"Acc\",%s,%s,%d,%d,%d,%d,%d,%d,%d,%d,%d]", tx.c_str(), ty.c_str(), (int) same, (int) rg::ResourceAccess::is_serial(ra, rd), (int) rg::ResourceAccess::is_serial(rb, ra),
           (int) ra.is_superset_of(rc), (int) rd.is_superset_of(ra), (int) ra.is_synchronizing(), (int) rd.is_synchronizing(), (int) (ra == rc), (int) ra.is_same_resource(rb));
}
using F1 = FieldAccess<1>; using F2 = FieldAccess<2>; using F3 = FieldAccess<3>;
using CIA = CombineAccess<IOAccess, AreaAccess, And_t>; using CAI = CombineAccess<AreaAccess, IOAccess, Or_t>;
using CIO = CombineAccess<IOAccess, AreaAccess, Or_t>; using CAA = CombineAccess<AreaAccess, IOAccess, And_t>;
using T13 = CombineAccess<CIO, CAA, Or_t>;
static void (*Q[])(std::vector<long> const&) = {
    query<IOAccess>, query<AreaAccess>, query<ArrayAccess<AreaAccess, 1, And_t>>, query<ArrayAccess<AreaAccess, 2, And_t>>, query<ArrayAccess<AreaAccess, 3, And_t>>,
    query<ArrayAccess<AreaAccess, 2, Or_t>>, query<ArrayAccess<IOAccess, 2, And_t>>, query<ArrayAccess<IOAccess, 3, Or_t>>, query<CIA>, query<CAI>,
    query<F1>, query<F2>, query<F3>, query<T13>, query<ArrayAccess<CIA, 2, Or_t>>, query<ArrayAccess<F1, 2, And_t>>, query<CombineAccess<IOAccess, IOAccess, And_t>>,
    query<ArrayAccess<AreaAccess, 3, Or_t>>, query<ArrayAccess<IOAccess, 1>>, query<CombineAccess<IOAccess, AreaAccess>>};

static void body(void*)
{
    vs_set_pus(4);
    rg::init(1);
    {
        std::vector<rg::Resource<IOAccess>> rio(3);
        std::vector<rg::Resource<F1>> rf1(2);
        rg::Resource<F2> rf2;
        rg::Resource<T13> rt;
        std::map<int, rg::ResourceUser*> U;
        std::string tree;
        auto mk = [&](std::vector<long> const& a) {
            int r = a[1];
            P = a.data() + 2; DEF = false;
            tree = r < 3 ? Rd<IOAccess>::tree() : r < 5 ? Rd<F1>::tree() : r == 5 ? Rd<F2>::tree() : Rd<T13>::tree();
            P = a.data() + 2;
            if(r < 3) return rio[r].make_access(Rd<IOAccess>::get());
            if(r < 5) return rf1[r - 3].make_access(Rd<F1>::get());
            if(r == 5) return rf2.make_access(Rd<F2>::get());
            return rt.make_access(Rd<T13>::get());
        };
        auto user = [&](int u) -> rg::ResourceUser& { if(!U.count(u)) U[u] = new rg::ResourceUser(); return *U[u]; };
        for(auto& o : SC.th[0])
        {
            auto& a = o.a;
            if(o.op == "q") Q[a[0]](a);
            else if(o.op == "add") { auto x = mk(a); user(a[0]).add_resource_access(x); vs_log("[\"Add\",%ld,%ld,%s]", a[0], a[1], tree.c_str()); }
            else if(o.op == "rm") { auto x = mk(a); user(a[0]).rm_resource_access(x); vs_log("[\"Rm\",%ld,%ld,%s]", a[0], a[1], tree.c_str()); }
            else if(o.op == "copy") { auto* n = new rg::ResourceUser(user(a[0])); delete &user(a[1]); U[a[1]] = n; vs_log("[\"Copy\",%ld,%ld]", a[0], a[1]); }
            else if(o.op == "cmp")
            {
                auto &x = user(a[0]), &y = user(a[1]);
                vs_log("[\"Cmp\",%ld,%ld,%d,%d,%d,%d]", a[0], a[1], (int) rg::ResourceUser::is_serial(x, y), (int) rg::ResourceUser::is_serial(y, x),
                       (int) rg::ResourceUser::is_superset(x, y), (int) y.is_superset_of(x));
            }
            else if(o.op == "sync")
            {
                long r = a[1];
                auto any = r < 3 ? rio[r].make_access(IOAccess()) : r < 5 ? rf1[r - 3].make_access(F1()) : r == 5 ? rf2.make_access(F2()) : rt.make_access(T13());
                vs_log("[\"Sync\",%ld,%ld,%d]", a[0], r, (int) user(a[0]).has_sync_access(any.get_resource()));
            }
            else if(o.op == "uniq")
            {
                int n = 0;
                auto& u = user(a[0]);
                for(auto e = u.unique_resources.rbegin(); e != u.unique_resources.rend(); ++e) n++;
                vs_log("[\"Uniq\",%ld,%d]", a[0], n);
            }
        }
        for(auto& u : U) delete u.second;
    }
    rg::finalize();
}
int main(int argc, char** argv) { return script_main(argc, argv, body); }
