// CondVar and SpinLock. P <pid> cv <timeout> | lock
#include <redGrapes/sync/cv.hpp>
#include <redGrapes/sync/spinlock.hpp>
#include "script.h"
#include "obs.h"
#include <thread>
static redGrapes::CondVar* CV;
static redGrapes::SpinLock* LK;
static long SHARED;
static int LEFT;
static void thread_body(int t)
{
    for(auto& o : SC.th[t])
    {
        if(o.op == "wait") { vs_log("[\"WaitC\"]"); CV->wait(); vs_log("[\"WaitR\"]"); }
        else if(o.op == "notify") { vs_log("[\"NotC\",%d]", t); bool r = CV->notify(); vs_log("[\"NotR\",%d,%d]", t, (int) r); }
        else if(o.op == "lock")
        {
            vs_log("[\"LockC\",%d]", t);
            LK->lock();
            vs_log("[\"Acq\",%d]", t);
            for(int k = 0; k < o.a[0]; ++k) { long x = SHARED; vs_point(); SHARED = x + 1; }
            vs_log("[\"Rel\",%d]", t);
            LK->unlock();
        }
        else if(o.op == "pause") for(int k = 0; k < o.a[0]; ++k) vs_yield();
    }
    if(t == 0) obs_set(&LEFT, 0);
}
static void body(void*)
{
    bool cv = SC.arg[0] == "cv";
    redGrapes::CondVar c(cv ? SC.num(1) : 0);
    redGrapes::SpinLock l;
    CV = &c;
    LK = &l;
    SHARED = 0;
    LEFT = cv;
    std::vector<std::thread> th;
    for(size_t t = 0; t < SC.threads(); ++t) th.emplace_back(thread_body, t);
    vs_wait_quiescent();
    vs_log("[\"Q\"]");
    while(obs_get(&LEFT))
    {
        int t = SC.threads();
        vs_log("[\"NotC\",%d]", t);
        bool r = c.notify();
        vs_log("[\"NotR\",%d,%d]", t, (int) r);
        vs_wait_quiescent();
        vs_log("[\"Q\"]");
    }
    for(auto& t : th) t.join();
    if(!cv)
    {
        long want = 0;
        for(auto& t : SC.th) for(auto& o : t) if(o.op == "lock") want += o.a[0];
        vs_log("[\"Sum\",%ld,%ld]", SHARED, want);
    }
}
int main(int argc, char** argv) { return script_main(argc, argv, body); }
