// AtomicBitfield and the worker pool's claiming. P <pid> field|pool <size>
#include <redGrapes/redGrapes.hpp>
#include <redGrapes/dispatch/thread/worker.hpp>
#include <redGrapes/dispatch/thread/worker_pool.hpp>
#include <redGrapes/util/bitfield.hpp>
#include "script.h"
#include "obs.h"
#include <thread>
namespace rg = redGrapes;
using rg::dispatch::thread::WorkerState;
static rg::AtomicBitfield* F;
static rg::dispatch::thread::WorkerPool* W;
static void thread_body(int t)
{
    std::shared_ptr<rg::dispatch::thread::WorkerThread> me;
    auto& ctx = rg::SingletonContext::get().hwloc_ctx;
    hwloc_obj_t obj = hwloc_get_obj_by_type(ctx.topology, HWLOC_OBJ_PU, 0);
    rg::memory::ChunkedBumpAlloc<rg::memory::HwlocAlloc> al(rg::memory::HwlocAlloc(ctx, obj), REDGRAPES_ALLOC_CHUNKSIZE);
    for(auto& o : SC.th[t])
    {
        auto a = [&](size_t i) { return i < o.a.size() ? o.a[i] : 0; };
        if(o.op == "set")
        {
            vs_log("[\"SetC\",%d,%ld,%ld]", t, a(0), a(1));
            bool r;
            if(F) r = F->set(a(0), a(1));
            else
            {
                bool ch = W->set_worker_state(a(0), a(1) ? WorkerState::AVAILABLE : WorkerState::BUSY);
                r = ch ? !a(1) : (bool) a(1);
            }
            vs_log("[\"SetR\",%d,%ld,%d]", t, a(0), (int) r);
        }
        else if(o.op == "get")
        {
            vs_log("[\"GetC\",%d,%ld]", t, a(0));
            bool r = F ? F->get(a(0)) : W->get_worker_state(a(0)) == WorkerState::AVAILABLE;
            vs_log("[\"GetR\",%d,%ld,%d]", t, a(0), (int) r);
        }
        else if(o.op == "probe")
        {
            // expected value, start, exclude start, accept idx iff idx % m == r
            bool ex = a(0);
            unsigned start = a(1);
            long m = a(3), r = a(4);
            vs_log("[\"ProbeC\",%d,%d,%u,%d]", t, (int) ex, start, (int) a(2));
            auto f = [&](unsigned idx) -> std::optional<unsigned> {
                vs_log("[\"Visit\",%d,%u]", t, idx);
                if(m && (long) (idx % m) == r) return idx;
                return std::nullopt;
            };
            std::optional<unsigned> x;
            if(F) x = F->template probe_by_value<unsigned>(f, ex, start, (bool) a(2));
            else x = W->template probe_worker_by_state<unsigned>(std::move(f), ex, start, (bool) a(2));
            vs_log("[\"ProbeR\",%d,%d,%ld,%ld]", t, x ? (int) *x : -1, m, r);
        }
        else if(o.op == "be")
        {
            // act as this worker: searches start there
            me = std::make_shared<rg::dispatch::thread::WorkerThread>(al, ctx, obj, (unsigned) a(0));
            rg::SingletonContext::get().current_worker = me;
        }
        else if(o.op == "claim")
        {
            vs_log("[\"ClaimC\",%d]", t);
            int x = W->find_free_worker();
            vs_log("[\"ClaimR\",%d,%d]", t, x);
        }
    }
    rg::SingletonContext::get().current_worker.reset();
}
static void body(void*)
{
    vs_set_pus(4);
    size_t n = SC.num(1);
    auto& ctx = rg::SingletonContext::get();
    bool pool = SC.arg[0] == "pool";
    rg::AtomicBitfield f(pool ? 1 : n);
    rg::dispatch::thread::WorkerPool w(ctx.hwloc_ctx, pool ? n : 1);
    F = pool ? nullptr : &f;
    W = pool ? &w : nullptr;
    vs_log("[\"Size\",%zu]", pool ? n : f.size());
    std::vector<std::thread> th;
    for(size_t t = 1; t < SC.threads(); ++t) th.emplace_back(thread_body, t);
    thread_body(0);
    for(auto& t : th) t.join();
    for(size_t i = 0; i < n; ++i)
        if(pool ? w.get_worker_state(i) == WorkerState::AVAILABLE : f.get(i)) vs_log("[\"Final\",%zu]", i);
    vs_log("[\"FinalR\"]");
}
int main(int argc, char** argv) { return script_main(argc, argv, body); }
