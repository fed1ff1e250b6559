// Memory arenas. P <pid> <chunk size>
#include <redGrapes/memory/chunked_bump_alloc.hpp>
#include <redGrapes/memory/hwloc_alloc.hpp>
#include <redGrapes/redGrapes.hpp>
#include "script.h"
#include "obs.h"
#include <cstring>
#include <memory>
#include <thread>
namespace rg = redGrapes;
using Arena = rg::memory::ChunkedBumpAlloc<rg::memory::HwlocAlloc>;
static Arena* A;
struct B { int st; rg::memory::Block blk; long n; };   // st 0 none, 1 live, 2 freed
static B blk[256];
static int LIVE;
static void limit_hit() { vs_log("[\"SysF\"]"); }
static void hook(int is_free, uintptr_t p, size_t len, size_t req)
{
    LIVE += is_free ? -1 : 1;
    vs_log("[\"Sys\",%d,%ld,%zu]", is_free, vs_region_of(p, 0, 0, 0), len);
}
static bool intact(B& b, long id)
{
    unsigned char* p = (unsigned char*) b.blk.ptr;
    for(long i = 0; i < b.n; ++i) if(p[i] != (unsigned char) (id * 31 + i % 7)) return false;
    return true;
}
static void alloc(int t, long id, long n)
{
    vs_log("[\"AllocC\",%d,%ld,%ld]", t, id, n);
    auto b = A->allocate(n);
    if(!b) { vs_log("[\"AllocF\",%d,%ld,%ld]", t, id, n); return; }
    uintptr_t base = 0;
    size_t len = 0;
    int live = 0;
    long r = vs_region_of(b.ptr, &base, &len, &live);
    vs_log("[\"AllocR\",%d,%ld,%ld,%ld,%ld,%zu,%zu,%d]", t, id, n, r, r < 0 ? 0 : (long) (b.ptr - base), b.len, len, live);
    if(r < 0 || !live || b.ptr + n > base + len) return;
    unsigned char* p = (unsigned char*) b.ptr;
    for(long i = 0; i < n; ++i) p[i] = (unsigned char) (id * 31 + i % 7);
    blk[id].blk = b;
    blk[id].n = n;
    obs_set(&blk[id].st, 1);
}
static void release(int t, long id)
{
    if(!obs_cas(&blk[id].st, 1, 2)) return;
    vs_log("[\"Free\",%d,%ld,%d]", t, id, (int) intact(blk[id], id));
    A->deallocate(blk[id].blk);
    vs_log("[\"FreeR\",%d,%ld]", t, id);
}
static void thread_body(int t)
{
    for(auto& o : SC.th[t])
    {
        if(o.op == "alloc") alloc(t, o.a[0], o.a[1]);
        else if(o.op == "limit") vs_fail_alloc_after(o.a[0]);   // the system refuses one request, after this many
        else if(o.op == "free") release(t, o.a[0]);
        else if(o.op == "churn")
            // allocate and free: id, size, times
            for(long k = 0; k < o.a[2]; ++k)
            {
                alloc(t, o.a[0], o.a[1]);
                release(t, o.a[0]);
                obs_set(&blk[o.a[0]].st, 0);
            }
    }
}
static void body(void*)
{
    vs_set_pus(2);
    vs_sys_hook = hook;
    vs_fail_hook = limit_hit;
    auto& ctx = rg::SingletonContext::get().hwloc_ctx;
    hwloc_obj_t obj = hwloc_get_obj_by_type(ctx.topology, HWLOC_OBJ_PU, 0);
    auto a = std::make_unique<Arena>(rg::memory::HwlocAlloc(ctx, obj), (size_t) SC.num(0));
    A = a.get();
    std::vector<std::thread> th;
    for(size_t t = 1; t < SC.threads(); ++t) th.emplace_back(thread_body, t);
    thread_body(0);
    for(auto& t : th) t.join();
    int T = SC.threads();
    vs_fail_alloc_after(-1);
    vs_log("[\"Quiet\",%d]", LIVE);
    for(long id = 0; id < 256; ++id) release(T, id);
    // memory is given back while the arena is used
    for(int k = 0; k < 2; ++k)
    {
        alloc(T, 255, 64);
        release(T, 255);
        obs_set(&blk[255].st, 0);
    }
    vs_log("[\"Mem\",%d]", LIVE);
    a.reset();
    vs_log("[\"Gone\",%d]", LIVE);
}
int main(int argc, char** argv) { return script_main(argc, argv, body); }
