H = '#include "demo.h"\n'
SEEDS = [
dict(id='c02-ready-read-again', prop='C02',
 edits=[('redGrapes/scheduler/event.cpp', 'is ready (state == 1)\n            return state == 1;\n', 'is ready (state == 1)\n            return this->get_event().is_ready();\n')],
 needs='the last predecessor completes right after another worker finished looking for the predecessors of the task',
 breaks='the task is put into a ready queue by the predecessor and also executed by the worker that initialised it',
 demo=H + r'''
int main()
{
    rg::init(3);
    quiet();
    {
        rg::IOResource<int> r;
        for(int i = 0; i < 400000; ++i)
        {
            std::atomic<int> n{0};
            auto a = rg::emplace_task([i](auto w) { for(volatile int k = 0; k < i % 1000; ++k) ; }, r.write()).submit();
            auto b = rg::emplace_task([&](auto w) { ++n; }, r.write()).submit();
            a.get();
            b.get();
            if(n != 1) fail("a body was executed twice");
            if(i % 64 == 0) { rg::barrier(); if(n != 1) fail("a body was executed twice"); }
        }
        rg::barrier();
    }
    rg::finalize();
}
'''),
dict(id='c04-touching-areas', prop='C04',
 edits=[('redGrapes/resource/access/area.hpp', 'return !((a[1] <= b[0]) || (a[0] >= b[1]));', 'return !((a[1] < b[0]) || (a[0] > b[1]));')],
 needs='two tasks use areas of which one begins where the other ends',
 breaks='the areas are taken for overlapping and the later task waits for the earlier one',
 demo=H + r'''
int main()
{
    rg::init(2);
    quiet();
    {
        rg::FieldResource<std::vector<int>> f(new std::vector<int>(8));
        std::atomic<bool> ran{false};
        rg::emplace_task([&](auto a) { EXPECT(within(5000, [&] { return ran.load(); })); }, f.area({0}, {4}));
        rg::emplace_task([&](auto a) { ran = true; }, f.area({4}, {8}));
        rg::barrier();
    }
    rg::finalize();
}
'''),
dict(id='c05-unregistered-when-body-ends', prop='C05',
 edits=[('redGrapes/scheduler/event.cpp',
'''                if(state == 0 && tag == scheduler::T_EVT_POST)
                    task->delete_from_resources();
''', ''),
 ('redGrapes/dispatch/thread/execute.cpp',
'''        else
            task.get_post_event().notify();
''',
'''        else
        {
            // the task does not use its resources any more
            task.delete_from_resources();
            task.get_post_event().notify();
        }
''')],
 needs='a conflicting task is submitted after the body of the parent returned, while a child of it is still unfinished',
 breaks='the later task does not see the parent any more and runs next to its children',
 demo=H + r'''
int main()
{
    rg::init(3);
    quiet();
    {
        rg::IOResource<int> r;
        std::atomic<bool> parent{false}, done{false}, early{false}, ran{false};
        rg::emplace_task([&](auto w) {
            rg::emplace_task([&] { ms(500); done = true; });
            parent = true;
        }, r.write());
        EXPECT(within(5000, [&] { return parent.load(); }));
        ms(100);
        rg::emplace_task([&](auto w) { if(!done) early = true; ran = true; }, r.write());
        rg::barrier();
        EXPECT(ran && !early);
    }
    rg::finalize();
}
'''),
dict(id='c06-reached-while-pausing', prop='C06',
 edits=[('redGrapes/dispatch/thread/execute.cpp', '        if(event)\n', '        // nothing to wait for if the event is already reached\n        if(event && !(*event)->is_reached())\n')],
 needs='the event is reached after the task decided to pause and before its worker registers the pause',
 breaks='the paused task is taken for finished: it is never resumed and its objects are destroyed on its stack',
 demo=H + r'''
int main()
{
    rg::init(2);
    quiet();
    std::atomic<int> done{0};
    std::atomic<rg::scheduler::EventPtr*> ev{nullptr};
    std::atomic<bool> stop{false};
    std::thread t([&] {
        unsigned k = 0;
        while(!stop)
            if(auto e = ev.exchange(nullptr))
            {
                for(volatile unsigned i = 0; i < k % 400; ++i) ;
                k += 7;
                e->notify();
                delete e;
            }
    });
    for(int i = 0; i < 60000; ++i)
    {
        rg::emplace_task([&] {
            auto e = *rg::create_event();
            ev = new rg::scheduler::EventPtr(e);
            rg::yield(e);
            ++done;
        }).enable_stack_switching();
        if(!within(3000, [&] { for(int j = 0; j < 20000 && done != i + 1; ++j) std::this_thread::yield(); return done == i + 1; })) fail("a paused task was not resumed");
    }
    stop = true;
    t.join();
    rg::barrier();
    rg::finalize();
}
'''),
dict(id='c07-waits-before-registering', prop='C07',
 edits=[('redGrapes/redGrapes.cpp',
'''            event->waker_id = Context::current_waker_id;
            while(!event->is_reached())
                idle();
''',
'''            while(!event->is_reached())
            {
                event->waker_id = Context::current_waker_id;
                idle();
            }
''')],
 needs='the result is set between the check and the registration of the waiting thread',
 breaks='get() called by the main thread sleeps although the result exists, nothing wakes it',
 demo=H + r'''
int main()
{
    rg::init(2);
    quiet();
    std::atomic<int> n{0};
    std::atomic<bool> done{false};
    std::thread t([&] {
        int last = -1;
        while(!done)
        {
            for(int i = 0; i < 4000 && !done && n == last; ++i) ms(1);
            if(!done && n == last) fail("get() did not return");
            last = n;
        }
    });
    for(int i = 0; i < 150000; ++i)
    {
        auto f = rg::emplace_task([i] { return i; }).submit();
        for(volatile int k = 0; k < i % 900; ++k) ;
        EXPECT(f.get() == i);
        ++n;
    }
    done = true;
    t.join();
    rg::barrier();
    rg::finalize();
}
'''),
dict(id='c09-removal-in-two-steps', prop='C09',
 edits=[('redGrapes/scheduler/event.cpp',
'''                        if(task->removal_countdown.fetch_sub(1) == 1)
                            task->space->free_task(task);
''',
'''                        --task->removal_countdown;
                        if(task->removal_countdown == 0)
                            task->space->free_task(task);
''')],
 needs='the result is taken by one thread while another one completes the task',
 breaks='both destroy the task',
 demo=H + r'''
static std::atomic<long> made{0}, gone{0};
struct Cap
{
    Cap() { ++made; }
    Cap(Cap const&) { ++made; }
    ~Cap() { ++gone; }
};
int main()
{
    rg::init(2);
    quiet();
    for(int i = 0; i < 400000; ++i)
    {
        {
            Cap c;
            auto f = rg::emplace_task([c] { return 1; }).submit();
            while(!f.is_ready()) ;
            for(volatile int k = 0; k < i % 60; ++k) ;
            f.get();
        }
        if(!within(2000, [&] { for(int j = 0; j < 20000 && made != gone; ++j) std::this_thread::yield(); return made == gone; })) fail("captured values are not destroyed exactly once");
    }
    rg::barrier();
    rg::finalize();
}
'''),
dict(id='c17-rest-of-chunk-reused', prop='C17',
 edits=[('redGrapes/memory/bump_allocator.cpp',
'''            uintptr_t addr = next_addr.fetch_sub(n_bytes) - n_bytes;
            if(addr >= lower_limit)
''',
'''            // leave the rest of the chunk to smaller blocks
            uintptr_t addr = next_addr;
            while(addr - n_bytes >= lower_limit && !next_addr.compare_exchange_weak(addr, addr - n_bytes))
                ;
            addr -= n_bytes;
            if(addr >= lower_limit)
''')],
 needs='blocks do not fill their chunk exactly, and the chunk is left for the next one before all of its blocks are freed',
 breaks='such a chunk never counts as full and is never given back, the memory held grows without bound',
 demo=H + r'''
#include <redGrapes/memory/chunked_bump_alloc.hpp>
static long held = 0;
struct Counting
{
    typedef void value_type;
    void* allocate(size_t n) { held += n; return std::malloc(n); }
    void deallocate(rg::memory::Block b) { held -= b.len; std::free((void*) b.ptr); }
};
int main()
{
    quiet();
    rg::memory::ChunkedBumpAlloc<Counting> a(Counting(), 64 * 1024);
    for(int i = 0; i < 2000; ++i)
    {
        rg::memory::Block b[5];
        for(auto& x : b) { x = a.allocate(16 * 1024); EXPECT((bool) x); }
        for(auto& x : b) a.deallocate(x);
    }
    EXPECT(held < 64 * 1024 * 20);
    _exit(0);
}
'''),
dict(id='c19-sync-access-of-other-resource', prop='C19',
 edits=[('redGrapes/resource/resource_user.cpp',
'''            if(ra->get_resource() == res && ra->is_synchronizing())
                return true;
''',
'''            if(ra->is_synchronizing())
                return true;
''')],
 needs='a task reads the resource and writes another one, between an earlier reader which is still running and a later writer',
 breaks='the search for predecessors stops at it, the writer does not wait for the earlier reader, which observes the value of the later task',
 demo=H + r'''
int main()
{
    rg::init(4);
    quiet();
    {
        rg::IOResource<int> a, b;
        rg::emplace_task([](auto w) { *w = 1; }, a.write()).get();
        std::atomic<int> seen{-1};
        std::atomic<bool> in{false};
        rg::emplace_task([&](auto r) { in = true; ms(400); seen = *r; }, a.read());
        EXPECT(within(5000, [&] { return in.load(); }));
        rg::emplace_task([&](auto r, auto w) { *w = *r; ms(50); }, a.read(), b.write());
        rg::emplace_task([&](auto w) { *w = 2; }, a.write());
        rg::barrier();
        EXPECT(seen == 1);
    }
    rg::finalize();
}
'''),
dict(id='c20-swap-with-last', prop='C20',
 edits=[('redGrapes/dispatch/mpi/request_pool.hpp',
'''                            requests.erase(requests.begin() + idx);
                            statuses.erase(statuses.begin() + idx);
                            events.erase(events.begin() + idx);

                            for(int j = i; j < outcount; ++j)
                                if(indices[j] > idx)
                                    indices[j]--;
''',
'''                            // the order of the requests does not matter
                            std::swap(requests[idx], requests.back());
                            std::swap(statuses[idx], statuses.back());
                            std::swap(events[idx], events.back());
                            requests.pop_back();
                            statuses.pop_back();
                            events.pop_back();

                            for(int j = i + 1; j < outcount; ++j)
                                if(indices[j] >= (int) requests.size())
                                    indices[j] = requests.size() - 1;
''')],
 needs='at least two requests complete in one poll, the last one of the pool among them',
 breaks='the status of one request and the wake-up go to the task of another one',
 files={'mpi.h': open('/verif/drv/mpistub/mpi.h').read()},
 demo=H + r'''
#include <redGrapes/dispatch/mpi/request_pool.hpp>
static bool completed[8];
int MPI_Testsome(int n, MPI_Request req[], int* outcount, int indices[], MPI_Status st[])
{
    int k = 0;
    for(int i = 0; i < n; ++i)
        if(req[i] && completed[req[i]->id])
        {
            st[k].MPI_TAG = 100 + req[i]->id;
            indices[k++] = i;
            req[i] = nullptr;
        }
    *outcount = k;
    return 0;
}
int main()
{
    rg::init(2);
    quiet();
    static StubRequest reqs[8];
    static std::atomic<int> tag[8];
    auto pool = std::make_shared<rg::dispatch::mpi::RequestPool>();
    for(int i = 0; i < 5; ++i)
    {
        reqs[i].id = i;
        rg::emplace_task([pool, i] { tag[i] = pool->get_status(&reqs[i]).MPI_TAG; }).enable_stack_switching();
        EXPECT(within(5000, [&] { std::lock_guard<std::mutex> l(pool->mutex); return pool->requests.size() == i + 1u; }));
    }
    ms(50);
    completed[0] = completed[2] = completed[4] = true;
    pool->poll();
    EXPECT(within(5000, [&] { return tag[0] && tag[2] && tag[4]; }));
    ms(50);
    EXPECT(tag[0] == 100 && tag[2] == 102 && tag[4] == 104 && tag[1] == 0 && tag[3] == 0);
    completed[1] = completed[3] = true;
    pool->poll();
    EXPECT(within(5000, [&] { return tag[1] && tag[3]; }));
    EXPECT(tag[1] == 101 && tag[3] == 103);
    rg::barrier();
    rg::finalize();
}
'''),
dict(id='c21-no-event-after-pause', prop='C21',
 edits=[('redGrapes/redGrapes.cpp',
'''        if(current_task)
            return current_task->make_event();
''',
'''        // a paused task does not create events
        if(current_task && !current_task->event)
            return current_task->make_event();
''')],
 needs='a task that was paused and resumed before creates another event',
 breaks='no event is created although a task is running',
 demo=H + r'''
int main()
{
    rg::init(2);
    quiet();
    std::atomic<bool> before{false}, after{false}, done{false};
    std::atomic<rg::scheduler::EventPtr*> ev{nullptr};
    rg::emplace_task([&] {
        auto e = rg::create_event();
        before = e.has_value();
        ev = new rg::scheduler::EventPtr(*e);
        rg::yield(*e);
        auto f = rg::create_event();
        after = f.has_value();
        if(f) f->notify();
        done = true;
    }).enable_stack_switching();
    EXPECT(within(5000, [&] { return ev.load() != nullptr; }));
    ms(50);
    ev.load()->notify();
    EXPECT(within(5000, [&] { return done.load(); }));
    EXPECT(before && after);
    rg::barrier();
    rg::finalize();
}
'''),
dict(id='c22-ids-per-thread', prop='C22',
 edits=[('redGrapes/task/property/id.hpp', 'static std::atomic_int x;', 'static thread_local std::atomic_int x;')],
 needs='tasks are created by different threads',
 breaks='tasks created by different threads have the same id',
 demo=H + r'''
#include <mutex>
#include <set>
int main()
{
    rg::init(3);
    quiet();
    std::mutex m;
    std::multiset<unsigned> ids;
    auto note = [&] { auto b = rg::backtrace(); std::lock_guard<std::mutex> l(m); ids.insert(b[0].get().task_id); };
    for(int i = 0; i < 20; ++i)
        rg::emplace_task([&] {
            note();
            for(int k = 0; k < 5; ++k) rg::emplace_task([&] { note(); });
        });
    rg::barrier();
    EXPECT(ids.size() == 120);
    for(auto i : ids) EXPECT(ids.count(i) == 1);
    rg::finalize();
}
'''),
]
