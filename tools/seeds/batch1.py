H = '#include "demo.h"\n'
DELAY = H + r'''
#include <dlfcn.h>
#include <pthread.h>
// a thread that woke others through a condition variable pauses as soon as it gave up the mutex
static thread_local bool woke = false;
extern "C" int pthread_cond_broadcast(pthread_cond_t* c)
{
    static auto real = (int (*)(pthread_cond_t*)) dlsym(RTLD_NEXT, "pthread_cond_broadcast");
    woke = true;
    return real(c);
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t* m)
{
    static auto real = (int (*)(pthread_mutex_t*)) dlsym(RTLD_NEXT, "pthread_mutex_unlock");
    int r = real(m);
    if(woke) { woke = false; usleep(3000); }
    return r;
}
'''
SEEDS = [
dict(id='c01-nested-user-hides-predecessor', prop='C01',
 edits=[('redGrapes/task/property/graph.cpp',
'''                    {
                        add_dependency(*preceding_task);
                        if(preceding_task->has_sync_access(r->resource))
                            break;
                    }
''',
'''                        add_dependency(*preceding_task);

                    // everything before this one is ordered transitively
                    if(preceding_task->has_sync_access(r->resource))
                        break;
''')],
 needs='a child task with a write access is submitted to the same resource between two conflicting tasks of the outer scope, and the later one is initialised while the earlier one still runs',
 breaks='the search for predecessors stops at a writer of another scope, so an earlier conflicting task of the same scope is missed and both run concurrently',
 demo=H + r'''
int main()
{
    rg::init(3);
    quiet();
    {
        rg::IOResource<int> r;
        std::atomic<bool> child{false}, done{false}, early{false}, ran{false};
        rg::emplace_task([&, r](auto w) {
            rg::emplace_task([](auto w) {}, r.write());
            child = true;
            ms(400);
            done = true;
        }, r.write());
        EXPECT(within(5000, [&] { return child.load(); }));
        ms(50);
        rg::emplace_task([&](auto w) { if(!done) early = true; ran = true; }, r.write());
        rg::barrier();
        EXPECT(ran && !early);
    }
    rg::finalize();
}
'''),
dict(id='c03-wake-before-push', prop='C03',
 edits=[('redGrapes/scheduler/default_scheduler.cpp',
'''            SingletonContext::get().worker_pool->get_worker(worker_id).ready_queue.push(&task);
            SingletonContext::get().worker_pool->set_worker_state(worker_id, dispatch::thread::WorkerState::BUSY);
            SingletonContext::get().worker_pool->get_worker(worker_id).wake();
''',
'''            SingletonContext::get().worker_pool->set_worker_state(worker_id, dispatch::thread::WorkerState::BUSY);
            SingletonContext::get().worker_pool->get_worker(worker_id).wake();
            SingletonContext::get().worker_pool->get_worker(worker_id).ready_queue.push(&task);
''')],
 needs='the woken worker looks through the queues and goes back to sleep between the wake-up and the insertion of the task',
 breaks='a ready task stays in the queue of a sleeping worker for ever, barrier never returns',
 demo=DELAY + r'''
int main()
{
    rg::init(2);
    quiet();
    {
        rg::IOResource<int> r;
        std::atomic<int> n{0};
        for(int i = 0; i < 40; ++i)
        {
            rg::emplace_task([&](auto w) { ms(15); ++n; }, r.write());
            rg::emplace_task([&](auto w) { ++n; }, r.write());
            EXPECT(within(5000, [&] { return n == 2 * (i + 1); }));
        }
    }
    rg::finalize();
}
'''),
dict(id='c08-stop-wakes-first', prop='C08',
 edits=[('redGrapes/dispatch/thread/worker.cpp',
'''                m_stop.store(true, std::memory_order_release);
                wake();
''',
'''                wake();
                m_stop.store(true, std::memory_order_release);
''')],
 needs='the worker checks the stop flag and sleeps again between the wake-up and the store of the flag',
 breaks='finalize waits for ever for a worker thread that sleeps',
 demo=DELAY + r'''
int main()
{
    std::atomic<bool> done{false};
    std::thread t([&] { if(!within(20000, [&] { return done.load(); })) fail("finalize did not return"); });
    rg::init(2);
    quiet();
    rg::emplace_task([] {});
    rg::barrier();
    ms(100);
    rg::finalize();
    done = true;
    t.join();
}
'''),
dict(id='c09-result-taken-after-release', prop='C09',
 edits=[('redGrapes/task/future.hpp',
'''            // take result
            T result = std::move(*reinterpret_cast<T*>(task.get_result_data()));
            taken = true;
            task.get_result_get_event().notify();

            return std::move(result);
''',
'''            // take result
            taken = true;
            T& result = *reinterpret_cast<T*>(task.get_result_data());
            task.get_result_get_event().notify();

            return std::move(result);
''')],
 needs='the task is completely finished before the future is read, and the result has a destructor',
 breaks='the task with its result is destroyed before the result is moved out of it',
 demo=H + r'''
struct R
{
    volatile int v = 0;
    R(int v = 0) : v(v) {}
    R(R const& o) : v(o.v) {}
    R& operator=(R const& o) { v = o.v; return *this; }
    ~R() { v = -1; }
};
int main()
{
    rg::init(2);
    quiet();
    for(int i = 1; i < 20; ++i)
    {
        auto f = rg::emplace_task([i] { return R(i); }).submit();
        ms(30);
        R r = f.get();
        EXPECT(r.v == i);
    }
    rg::finalize();
}
'''),
dict(id='c10-only-first-follower-released', prop='C10',
 edits=[('redGrapes/task/property/graph.cpp',
'''        for(auto it = post_event.followers.rbegin(); it != post_event.followers.rend(); ++it)
''',
'''        bool released = false;
        for(auto it = post_event.followers.rbegin(); !released && it != post_event.followers.rend(); ++it)
'''), ('redGrapes/task/property/graph.cpp',
'''                    post_event.followers.remove(it);

                    follower.notify();
''',
'''                    post_event.followers.remove(it);

                    follower.notify();
                    released = true;
''')],
 needs='at least two tasks wait for the accesses that are given up',
 breaks='only one of the tasks which no longer conflict is released, the other ones wait for the end of the task',
 demo=H + r'''
int main()
{
    rg::init(4);
    quiet();
    {
        rg::IOResource<int> r;
        std::atomic<bool> go{false}, end{false};
        std::atomic<int> ran{0};
        rg::emplace_task([&, r](auto w) {
            within(5000, [&] { return go.load(); });
            rg::update_properties(rg::TaskProperties::Patch::Builder().remove_resources({r.write()}).add_resources({r.read()}));
            within(3000, [&] { return ran == 3; });
            end = true;
        }, r.write());
        std::atomic<int> early{0};
        for(int i = 0; i < 3; ++i)
            rg::emplace_task([&](auto x) { if(!end) ++early; ++ran; }, r.read());
        ms(100);
        go = true;
        rg::barrier();
        EXPECT(early == 3);
    }
    rg::finalize();
}
'''),
dict(id='c13-any-covered-access-suffices', prop='C13',
 edits=[('redGrapes/resource/resource_user.cpp',
'''        TRACE_EVENT("ResourceUser", "is_superset");
        for(auto ra = a.access_list.rbegin(); ra != a.access_list.rend(); ++ra)
        {
            bool found = false;
''',
'''        TRACE_EVENT("ResourceUser", "is_superset");
        bool found = false;
        for(auto ra = a.access_list.rbegin(); ra != a.access_list.rend(); ++ra)
        {
''')],
 needs='a list of at least two accesses where an uncovered one was declared before a covered one',
 breaks='an access list counts as covered if its last access is covered',
 demo=H + r'''
int main()
{
    rg::init(1);
    quiet();
    {
        rg::IOResource<int> a, b;
        rg::ResourceUser parent({a.write()});
        EXPECT(parent.is_superset_of(rg::ResourceUser({a.read()})));
        EXPECT(parent.is_superset_of(rg::ResourceUser({a.read(), a.write()})));
        EXPECT(!parent.is_superset_of(rg::ResourceUser({b.read()})));
        EXPECT(!parent.is_superset_of(rg::ResourceUser({a.read(), b.read()})));
        EXPECT(!parent.is_superset_of(rg::ResourceUser({b.read(), a.read()})));
    }
    rg::finalize();
}
'''),
dict(id='c14-notify-without-mutex', prop='C14',
 edits=[('redGrapes/sync/cv.cpp',
'''            std::unique_lock<std::mutex> l(m);
            cv.notify_all();
''',
'''            cv.notify_all();
''')],
 needs='the notification comes between the test of the flag and the moment the thread goes to sleep',
 breaks='the notification is lost, the waiting thread sleeps until the next one',
 demo=H + r'''
#include <dlfcn.h>
#include <pthread.h>
#include <redGrapes/sync/cv.hpp>
// a thread going to sleep is delayed right before
static std::atomic<int> sleeping{0};
extern "C" int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    static auto real = (int (*)(pthread_cond_t*, pthread_mutex_t*)) dlsym(RTLD_NEXT, "pthread_cond_wait");
    ++sleeping;
    usleep(50000);
    return real(c, m);
}
int main()
{
    rg::CondVar cv(0);
    std::atomic<bool> done{false};
    std::thread t([&] { cv.wait(); done = true; });
    EXPECT(within(3000, [&] { return sleeping > 0; }));
    ms(10);
    cv.notify();
    EXPECT(within(3000, [&] { return done.load(); }));
    t.join();
}
'''),
dict(id='c15-chunk-dropped-early', prop='C15',
 edits=[('redGrapes/util/chunked_list.hpp',
'''            if(chunk->freed_items.fetch_add(1) == T_chunk_size - 1u)
                chunks.erase(chunk);
''',
'''            if(chunk->freed_items.fetch_add(1) + 2u == T_chunk_size)
                chunks.erase(chunk);
''')],
 needs='all but one element of a chunk are removed while the list is in use',
 breaks='the last element of the chunk disappears from the list without being removed',
 demo=H + r'''
int main()
{
    rg::init(1);
    quiet();
    {
        rg::ChunkedList<int, 8> l(rg::memory::Allocator(0));
        std::vector<rg::ChunkedList<int, 8>::MutBackwardIterator> pos;
        for(int i = 0; i < 20; ++i) pos.push_back(l.push(i));
        for(int i = 0; i < 8; ++i)
            if(i != 3) l.remove(pos[i]);
        int n = 0, sum = 0;
        for(auto it = l.rbegin(); it != l.rend(); ++it) { ++n; sum += *it; }
        EXPECT(n == 13);
        EXPECT(sum == 190 - 28 + 3);
    }
    rg::finalize();
}
'''),
dict(id='c16-last-field-mask', prop='C16',
 edits=[('redGrapes/util/bitfield.hpp',
'''                if(field_idx == state.size() - 1 && size() % bitfield_len != 0)
                    mask &= (uint64_t(1) << (size() % bitfield_len)) - 1;

                if(auto x = probe_chunk_by_value<T>(field_idx, mask, expected_value, f))
''',
'''                if(start_field_idx == state.size() - 1 && size() % bitfield_len != 0)
                    mask &= (uint64_t(1) << (size() % bitfield_len)) - 1;

                if(auto x = probe_chunk_by_value<T>(field_idx, mask, expected_value, f))
''')],
 needs='more than 64 workers, their number no multiple of 64, and a search that starts in the first half of them',
 breaks='the search visits workers that do not exist, or misses existing ones',
 demo=H + r'''
#include <redGrapes/util/bitfield.hpp>
int main()
{
    rg::AtomicBitfield b(100);
    for(unsigned i = 0; i < 100; ++i) b.set(i, true);
    auto any = [](unsigned i) -> std::optional<unsigned> { return i; };
    for(unsigned s = 0; s < 100; ++s)
        EXPECT(!b.probe_by_value<unsigned>(any, false, s, false));
    for(unsigned k = 0; k < 100; ++k)
    {
        b.set(k, false);
        for(unsigned s = 0; s < 100; ++s)
        {
            auto x = b.probe_by_value<unsigned>(any, false, s, false);
            EXPECT(x && *x == k);
        }
        b.set(k, true);
    }
}
'''),
dict(id='c18-any-common-tag', prop='C18',
 edits=[('redGrapes/scheduler/tag_match.hpp',
'''                    if((s.supported_tags & required_tags) == required_tags)
''',
'''                    if(required_tags.none() || (s.supported_tags & required_tags).any())
''')],
 needs='a task that requires at least two tags, and a scheduler registered earlier that supports only some of them',
 breaks='the task is handed to a scheduler that supports only a part of its tags',
 config='''#pragma once
#include <redGrapes/scheduler/tag_match_property.hpp>
enum Tags { T0, T1, T2 };
#define REDGRAPES_TASK_PROPERTIES redGrapes::scheduler::SchedulingTagProperties<Tags>
template<> struct fmt::formatter<Tags>
{
    constexpr auto parse(format_parse_context& ctx) { return ctx.begin(); }
    template<typename C> auto format(Tags const& t, C& ctx) { return fmt::format_to(ctx.out(), "{}", (int) t); }
};
''',
 demo=H + r'''
#include <redGrapes/scheduler/default_scheduler.hpp>
#include <redGrapes/scheduler/tag_match.hpp>
struct S : rg::scheduler::DefaultScheduler { std::atomic<int> n{0}; void emplace_task(rg::Task& t) override { ++n; rg::scheduler::DefaultScheduler::emplace_task(t); } };
int main()
{
    auto a = std::make_shared<S>(), b = std::make_shared<S>(), c = std::make_shared<S>();
    rg::scheduler::TagMatch<64> m;
    m.add_scheduler({T0}, a);
    m.add_scheduler({T1}, b);
    m.add_scheduler({T0, T1}, c);
    auto get = [&](std::bitset<64> t) -> rg::scheduler::IScheduler* { auto s = m.get_matching_scheduler(t); return s ? s->get() : nullptr; };
    EXPECT(get(0) == a.get());
    EXPECT(get(1) == a.get());
    EXPECT(get(2) == b.get());
    EXPECT(get(3) == c.get());
    EXPECT(get(4) == nullptr);
    EXPECT(get(5) == nullptr);
}
'''),
dict(id='c12-last-dimension-decides', prop='C12',
 edits=[('redGrapes/resource/fieldresource.hpp',
'''                for(size_t d = 0; d < dim; d++)
                {
                    if(index[d] < m_area[d][0] || index[d] >= m_area[d][1])
                        return false;
                }
                return true;
''',
'''                bool inside = true;
                for(size_t d = 0; d < dim; d++)
                    inside = index[d] >= m_area[d][0] && index[d] < m_area[d][1];
                return inside;
''')],
 needs='a field with two dimensions and an index that is outside of the area in the first one only',
 breaks='a guard gives access to elements outside of its area',
 demo=H + r'''
int main()
{
    rg::init(1);
    quiet();
    {
        using C = std::array<std::array<int, 8>, 8>;
        rg::FieldResource<C> f(new C());
        auto g = f.area({2, 3}, {5, 7});
        for(size_t x = 0; x < 8; ++x)
            for(size_t y = 0; y < 8; ++y)
            {
                bool in = x >= 2 && x < 5 && y >= 3 && y < 7, ok = true;
                try { g[{x, y}] = 1; } catch(std::out_of_range const&) { ok = false; }
                EXPECT(ok == in);
            }
    }
    rg::finalize();
}
'''),
dict(id='c11-one-full-dimension-synchronises', prop='C11',
 edits=[('redGrapes/resource/access/combine.hpp',
'''                for(std::size_t i = 0; i < N; ++i)
                    if(!(*this)[i].is_synchronizing())
                        return false;

                return true;
''',
'''                for(std::size_t i = 0; i < N; ++i)
                    if((*this)[i].is_synchronizing())
                        return true;

                return false;
''')],
 needs='a composed access whose parts are partly restricted, such as a full row of a two-dimensional field',
 breaks='an access counts as synchronising although others of its kind do not conflict with it, so that earlier conflicting tasks behind it are missed',
 demo=H + r'''
int main()
{
    using A = rg::access::ArrayAccess<rg::access::AreaAccess, 2, rg::access::And_t>;
    rg::access::AreaAccess full, part(std::array<size_t, 2>{2, 5});
    EXPECT((A({full, full}).is_synchronizing()));
    EXPECT((!A({full, part}).is_synchronizing()));
    EXPECT((!A({part, full}).is_synchronizing()));
    EXPECT((!A({part, part}).is_synchronizing()));
}
'''),
]
