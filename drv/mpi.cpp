// MPI request pool. P <pid> <workers> <batch> <order seed> <main polls>
//   O <k> ...: thread 0 = main: task t tag pause.. ; other threads: complete r | poll | pause n
#include <redGrapes/redGrapes.hpp>
#include <redGrapes/scheduler/default_scheduler.hpp>
#include <redGrapes/scheduler/tag_match.hpp>
#include <redGrapes/dispatch/mpi/request_pool.hpp>
#include <redGrapes/dispatch/thread/worker_pool.hpp>
#include "script.h"
#include "obs.h"
#include <algorithm>
#include <mutex>
#include <thread>
namespace rg = redGrapes;
static const int MAXR = 64;
static StubRequest REQ[MAXR];
static int STATE[MAXR];   // 0 active, 1 complete, 2 reported
static std::mutex SM;
static int BATCH;
static unsigned long RNG;
static int PENDING;
static unsigned rnd(unsigned n) { RNG = RNG * 6364136223846793005ul + 1442695040888963407ul; return (RNG >> 33) % n; }
static void status(int r, MPI_Status* s)
{
    if(!s) return;
    s->MPI_SOURCE = r * 3 + 1; s->MPI_TAG = r * 5 + 2; s->MPI_ERROR = r * 7 + 3; s->count[0] = r * 11 + 4; s->count[1] = r * 13 + 5;
}
static bool status_ok(int r, MPI_Status const& s)
{
    MPI_Status e;
    status(r, &e);
    return s.MPI_SOURCE == e.MPI_SOURCE && s.MPI_TAG == e.MPI_TAG && s.MPI_ERROR == e.MPI_ERROR && s.count[0] == e.count[0] && s.count[1] == e.count[1];
}
// reports at most `max` of the completed requests, in an order MPI is free to choose
static int some(int n, MPI_Request req[], int indices[], MPI_Status st[], int max)
{
    std::lock_guard<std::mutex> l(SM);
    std::string s;
    int active = 0;
    std::vector<int> c;
    for(int i = 0; i < n; ++i)
    {
        if(!req[i]) continue;
        active++;
        s += (s.size() ? "," : "") + std::to_string(req[i]->id);
        if(STATE[req[i]->id] == 1) c.push_back(i);
    }
    for(size_t i = 1; i < c.size(); ++i) std::swap(c[i], c[rnd(i + 1)]);
    if(rnd(3) == 0) std::sort(c.begin(), c.end());
    if(c.size() > 0 && rnd(4) == 0 && max > 1) max = 1 + rnd(c.size());
    if((int) c.size() > max) c.resize(max);
    std::string d;
    for(size_t i = 0; i < c.size(); ++i)
    {
        int r = req[c[i]]->id;
        STATE[r] = 2;
        indices[i] = c[i];
        if(st) status(r, &st[i]);
        req[c[i]] = MPI_REQUEST_NULL;
        d += (i ? "," : "") + std::to_string(r);
    }
    static std::string last;
    if(c.size() || s != last) vs_log("[\"Test\",[%s],[%s]]", s.c_str(), d.c_str());
    last = s;
    return active ? (int) c.size() : MPI_UNDEFINED;
}
int MPI_Testsome(int n, MPI_Request req[], int* outcount, int indices[], MPI_Status st[]) { *outcount = some(n, req, indices, st, BATCH); return MPI_SUCCESS; }
int MPI_Testany(int n, MPI_Request req[], int* index, int* flag, MPI_Status* st)
{
    int k = some(n, req, index, st, 1);
    if(k <= 0) *index = MPI_UNDEFINED;
    *flag = k != 0;
    return MPI_SUCCESS;
}
int MPI_Test(MPI_Request* req, int* flag, MPI_Status* st)
{
    int i;
    *flag = some(1, req, &i, st, 1) != 0;
    return MPI_SUCCESS;
}
int MPI_Testall(int n, MPI_Request req[], int* flag, MPI_Status st[])
{
    *flag = 1;
    for(int i = 0; i < n; ++i) if(req[i] && STATE[req[i]->id] != 1) *flag = 0;
    if(*flag) for(int i = 0; i < n; ++i) MPI_Test(&req[i], flag, st ? &st[i] : 0);
    return MPI_SUCCESS;
}
struct RT { std::vector<long> a; };
static void thread_body(int t, rg::dispatch::mpi::RequestPool* pool)
{
    for(auto& o : SC.th[t])
    {
        if(o.op == "complete")
        {
            std::lock_guard<std::mutex> l(SM);
            STATE[o.a[0]] = 1;
            vs_log("[\"Cmpl\",%ld]", o.a[0]);
        }
        else if(o.op == "poll") pool->poll();
        else if(o.op == "pause") for(int i = 0; i < o.a[0]; ++i) std::this_thread::yield();
    }
}
static void body(void*)
{
    vs_set_pus(4);
    for(int i = 0; i < MAXR; ++i) { REQ[i].id = i; STATE[i] = 0; }
    BATCH = SC.num(1);
    RNG = SC.num(2) * 77 + 5;
    bool mainpolls = SC.num(3);
    PENDING = 0;
    for(auto& o : SC.th[0]) if(o.op == "task") PENDING++;
    auto pool = std::make_shared<rg::dispatch::mpi::RequestPool>();
    auto idle0 = rg::SingletonContext::get().idle;
    rg::init(SC.num(0));
    if(mainpolls) rg::SingletonContext::get().idle = [pool] { pool->poll(); };
    std::thread poller;
    std::vector<std::thread> th;
    for(size_t t = 1; t < SC.threads(); ++t) th.emplace_back(thread_body, t, pool.get());
    for(auto& o : SC.th[0])
    {
        if(o.op == "task")
        {
            int t = o.a[0];
            std::vector<long> rs(o.a.begin() + 1, o.a.end());
            rg::emplace_task([t, rs, pool]() {
                for(long r : rs)
                {
                    if(r < 0) { for(int i = 0; i < -r; ++i) std::this_thread::yield(); continue; }
                    vs_log("[\"GetC\",%d,%ld]", t, r);
                    MPI_Status s = pool->get_status(&REQ[r]);
                    int bt = -1;
                    auto b = rg::backtrace();
                    if(b.size()) bt = atoi(b[0].get().label.c_str());
                    vs_log("[\"GetR\",%d,%ld,%d,%d]", t, r, (int) status_ok(r, s), bt);
                }
                vs_log("[\"End\",%d]", t);
                obs_inc(&PENDING), obs_inc(&PENDING);
            }).label(std::to_string(t).c_str()).enable_stack_switching();
        }
        else if(o.op == "poll") pool->poll();
        else if(o.op == "pause") for(int i = 0; i < o.a[0]; ++i) std::this_thread::yield();
    }
    if(!mainpolls)
    {
        // somebody else polls until everything is done
        int goal = 0;
        for(auto& o : SC.th[0]) if(o.op == "task") goal += 3;
        poller = std::thread([pool, goal] { while(obs_get(&PENDING) != goal) { pool->poll(); std::this_thread::yield(); } });
    }
    rg::barrier();
    vs_log("[\"BarR\"]");
    if(!mainpolls) poller.join();
    for(auto& t : th) t.join();
    vs_log("[\"Left\",%zu,%zu,%zu]", pool->requests.size(), pool->events.size(), pool->statuses.size());
    rg::SingletonContext::get().idle = idle0;
    pool.reset();
    rg::finalize();
}
int main(int argc, char** argv) { return script_main(argc, argv, body); }
