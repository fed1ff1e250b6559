// Field guards. P <pid> vec|arr|mat <n> <how made>; guard 0 is the field itself
//   der new old how b0 e0 b1 e1 | get g x y | set g x y v | decl g
#include <redGrapes/redGrapes.hpp>
#include <redGrapes/resource/fieldresource.hpp>
#include "script.h"
#include <map>
#include <memory>
namespace rg = redGrapes;
using namespace rg::access;
template<class C> using WG = rg::fieldresource::WriteGuard<C>;
template<class C> using RG = rg::fieldresource::ReadGuard<C>;
// codes of indices: 1000000 SIZE_MAX, 999999 SIZE_MAX - 1, 600000 2^63, 500000 2^32, 500001 2^32 + 1
static size_t ix(long c) { return c >= 900000 ? ~0ul - (1000000 - c) : c >= 550000 ? (1ul << 63) + (c - 600000) : c >= 400000 ? (1ul << 32) + (c - 500000) : c; }
template<class C> struct G { std::unique_ptr<WG<C>> w; std::unique_ptr<RG<C>> r; };
using Vec = std::vector<int>; using Arr = std::array<int, 6>; using Mat = std::array<std::array<int, 4>, 3>;
static int& cell(Vec& v, int x, int) { return v[x]; }
static int& cell(Arr& v, int x, int) { return v[x]; }
static int& cell(Mat& v, int x, int y) { return v[y][x]; }
template<class A> constexpr bool isc = std::is_const_v<std::remove_reference_t<A>>;
template<class C>
static void go(rg::FieldResource<C> f, int nx, int ny)
{
    constexpr size_t D = rg::trait::Field<C>::dim;
    using I = std::array<size_t, D>;
    auto mk = [](long a, long b) { I i; i[0] = ix(a); if constexpr(D > 1) i[1] = ix(b); return i; };
    C* base = f.operator->();
    auto dump = [&] {
        std::string s;
        for(int y = 0; y < ny; ++y) for(int x = 0; x < nx; ++x) s += (s.size() ? "," : "") + std::to_string(cell(*base, x, y));
        vs_log("[\"Dump\",[%s]]", s.c_str());
    };
    for(int y = 0; y < ny; ++y) for(int x = 0; x < nx; ++x) cell(*base, x, y) = 1 + x + y * nx;
    vs_log("[\"Field\",%d,%d,%d]", (int) D, nx, ny);
    std::map<int, G<C>> g;
    g[0].w.reset(new WG<C>(f));
    for(auto& o : SC.th[0])
    {
        auto& a = o.a;
        if(o.op == "der")
        {
            auto& s = g[a[1]];
            if(!s.w && !s.r) continue;
            G<C> n;
            int ok = 1;
            try
            {
                if(a[2] == 0) { if(s.w) n.w.reset(new WG<C>(s.w->area(mk(a[3], a[5]), mk(a[4], a[6])))); else n.r.reset(new RG<C>(s.r->area(mk(a[3], a[5]), mk(a[4], a[6])))); }
                if(a[2] == 1) { if(s.w) n.w.reset(new WG<C>(s.w->at(mk(a[3], a[5])))); else n.r.reset(new RG<C>(s.r->at(mk(a[3], a[5])))); }
                if(a[2] == 2) { if(s.w) n.r.reset(new RG<C>(s.w->read())); else n.r.reset(new RG<C>(s.r->read())); }
                if(a[2] == 3) { if(s.w) n.w.reset(new WG<C>(s.w->write())); else continue; }
                if(a[2] == 4) { if(s.w) n.w.reset(new WG<C>(*s.w)); else n.r.reset(new RG<C>(*s.r)); }
            }
            catch(std::out_of_range&) { ok = 0; }
            vs_log("[\"Der\",%ld,%ld,%ld,%ld,%ld,%ld,%ld,%d]", a[0], a[1], a[2], a[3], a[4], a[5], a[6], ok);
            if(ok) g[a[0]] = std::move(n);
        }
        else if(o.op == "get" || o.op == "set")
        {
            auto& s = g[a[0]];
            if(!s.w && !s.r) continue;
            int v = -1, c;
            try
            {
                if(o.op == "get")
                {
                    if(s.w) { v = (*s.w)[mk(a[1], a[2])]; c = isc<decltype((*s.w)[mk(0, 0)])> + 2 * isc<decltype(*s.w->operator->())>; }
                    else { v = (*s.r)[mk(a[1], a[2])]; c = isc<decltype((*s.r)[mk(0, 0)])> + 2 * isc<decltype(*s.r->operator->())>; }
                    vs_log("[\"Same\",%ld,%d,%d]", a[0], (int) ((C const*) (s.w ? s.w->operator->() : s.r->operator->()) == base), c);
                }
                else if(s.w) { (*s.w)[mk(a[1], a[2])] = a[3]; v = a[3]; }
                else continue;
            }
            catch(std::out_of_range&) {}
            vs_log("[\"%s\",%ld,%ld,%ld,%d]", o.op == "get" ? "Get" : "Set", a[0], a[1], D > 1 ? a[2] : 0, o.op == "get" ? v : (v == -1 ? -1 : v));
            if(o.op == "set") dump();
        }
        else if(o.op == "decl")
        {
            auto& s = g[a[0]];
            if(!s.w && !s.r) continue;
            rg::ResourceAccess d = s.w ? (rg::ResourceAccess) *s.w : (rg::ResourceAccess) *s.r;
            // against one access per element and mode
            for(int m = 0; m < 4; ++m)
            {
                std::string sup, ser;
                auto one = [&](long x, long y) {
                    ArrayAccess<AreaAccess, D, And_t> ar;
                    ar[0] = AreaAccess({ix(x), ix(x) + 1});
                    if constexpr(D > 1) ar[1] = AreaAccess({ix(y), ix(y) + 1});
                    auto acc = f.make_access(FieldAccess<D>(IOAccess((IOAccess::Mode) m), ar));
                    auto t = "[" + std::to_string(x) + "," + std::to_string(y) + "]";
                    if(d.is_superset_of(acc)) sup += (sup.size() ? "," : "") + t;
                    if(rg::ResourceAccess::is_serial(acc, d)) ser += (ser.size() ? "," : "") + t;
                };
                for(long x : {0l, 1l, 2l, 3l, 4l, 5l, 6l, 7l, 500001l, 999999l})
                {
                    if(D == 1) one(x, 0);
                    else for(long y : {0l, 1l, 2l, 3l, 4l, 999999l}) one(x, y);
                }
                vs_log("[\"Decl\",%ld,%d,[%s],[%s]]", a[0], m, sup.c_str(), ser.c_str());
            }
        }
    }
    dump();
}
static void body(void*)
{
    vs_set_pus(4);
    rg::init(1);
    int n = SC.num(1), how = SC.num(2);
    {
        if(SC.arg[0] == "vec") go<Vec>(how ? rg::FieldResource<Vec>(new Vec(n)) : rg::FieldResource<Vec>((size_t) n), n, 1);
        else if(SC.arg[0] == "arr") go<Arr>(how ? rg::FieldResource<Arr>(new Arr()) : rg::FieldResource<Arr>(), 6, 1);
        else go<Mat>(how ? rg::FieldResource<Mat>(new Mat()) : rg::FieldResource<Mat>(), 4, 3);
    }
    rg::finalize();
}
int main(int argc, char** argv) { return script_main(argc, argv, body); }
