// P22: parallel iteration runs every item exactly once and reports failures
#include "pbt.hpp"
#include <atomic>
#include <list>
#include <memory>
#include <forward_list>
#include <mutex>
#include <set>
#include <thread>
#include "z5/util/threadpool.hxx"

using namespace z5::util;

// Exceptions that cross threads are reference counted inside the uninstrumented libstdc++, which
// ThreadSanitizer reports as a race on the exception object: throwing items are left to the address-sanitized build.
#if defined(__SANITIZE_THREAD__)
static const bool throwsAllowed = false;
#elif defined(__has_feature)
#if __has_feature(thread_sanitizer)
static const bool throwsAllowed = false;
#else
static const bool throwsAllowed = true;
#endif
#else
static const bool throwsAllowed = true;
#endif

// an input iterator over the integers [0, n)
struct InputIt {
    using iterator_category = std::input_iterator_tag;
    using value_type = int64_t; using difference_type = std::ptrdiff_t; using pointer = const int64_t *; using reference = int64_t;
    int64_t i;
    int64_t operator*() const { return i; }
    InputIt & operator++() { ++i; return *this; }
    InputIt operator++(int) { auto c = *this; ++i; return c; }
    bool operator==(const InputIt & o) const { return i == o.i; }
    bool operator!=(const InputIt & o) const { return i != o.i; }
};

struct Boom : std::runtime_error { using std::runtime_error::runtime_error; };

PBT_TEST(foreach) {
    const int kind = g.draw(5);
    const int64_t n = g.flip(1, 8) ? g.range(0, 5000) : g.flip(1, 2) ? g.range(0, 300) : g.range(0, 20);
    const int threads = g.flip(1, 12) ? -int(1 + g.draw(2)) : g.range(0, 17);
    const int poolThreads = threads < 0 ? int(std::thread::hardware_concurrency()) / (threads == -2 ? 2 : 1) : threads;
    std::set<int64_t> throwing;
    const int nthrow = throwsAllowed && g.flip(1, 3) ? g.range(1, 4) : 0;
    for(int i = 0; i < nthrow && n > 0; ++i) throwing.insert(g.draw(n));
    const bool lazy = g.flip(1, 4);   // items that take a moment
    const bool external = g.flip(1, 3);
    g.desc << "kind " << kind << " items " << n << " threads " << threads << " throwing " << throwing.size() << (external ? " shared pool" : "");
    g.nontrivial = n > 1 && poolThreads > 1;
    g.label("throwing", !throwing.empty()); g.label("parallel", g.nontrivial); g.label("kind" + std::to_string(kind));

    auto calls = std::make_shared<std::vector<std::atomic<int>>>(n + 1);
    auto returned = std::make_shared<std::atomic<bool>>(false);
    auto late = std::make_shared<std::atomic<int>>(0);
    auto badTid = std::make_shared<std::atomic<int>>(0);
    std::atomic<int> running{0};
    std::vector<int> plain(n + 1, 0);  // unsynchronised: concurrent calls for one item, or reading before completion, is a data race
    const int maxTid = std::max(1, poolThreads);
    std::vector<int> perThread(maxTid, 0);  // as the library's per-thread buffers: indexed by thread id without locks
    auto f = [=, &plain, &perThread, &running, &throwing](const int tid, const int64_t item) {
        if(returned->load()) { late->fetch_add(1); return; }
        running.fetch_add(1);
        if(tid < 0 || tid >= maxTid) badTid->fetch_add(1);
        else ++perThread[tid];
        (*calls)[item].fetch_add(1);
        ++plain[item];
        if(lazy && item % 7 == 0) std::this_thread::sleep_for(std::chrono::microseconds(50));
        running.fetch_sub(1);
        if(throwing.count(item)) throw Boom("item " + std::to_string(item));
    };
    std::vector<int64_t> vec(n);
    std::iota(vec.begin(), vec.end(), 0);
    std::list<int64_t> lst(vec.begin(), vec.end());
    const std::set<int64_t> st(vec.begin(), vec.end());
    const std::ptrdiff_t hint = g.flip() ? n : 0;
    std::string caught;
    auto run = [&](auto && poolOrN) {
        switch(kind) {
            case 0: parallel_foreach(poolOrN, std::ptrdiff_t(n), f); break;
            case 1: parallel_foreach(poolOrN, vec.begin(), vec.end(), f, hint); break;
            case 2: parallel_foreach(poolOrN, lst.begin(), lst.end(), f, hint); break;
            case 3: parallel_foreach(poolOrN, InputIt{0}, InputIt{n}, f, hint); break;
            default: parallel_foreach(poolOrN, st.begin(), st.end(), f, hint); break;
        }
    };
    std::unique_ptr<ThreadPool> pool;
    const int rounds = external ? 1 + g.draw(2) : 1;
    if(external) { pool.reset(new ThreadPool(threads)); PBT_CHECK(int(pool->nThreads()) == poolThreads, "pool has " << pool->nThreads() << " threads"); }
    for(int r = 0; r < rounds; ++r) {
        try { if(external) run(*pool); else run(int64_t(threads)); caught.clear(); }
        catch(const Boom & e) { caught = e.what(); }
        PBT_CHECK(running.load() == 0, running.load() << " calls are still running after the return");
        PBT_CHECK(badTid->load() == 0, "thread id out of range");
        if(throwing.empty()) {
            PBT_CHECK(caught.empty(), "unexpected exception " << caught);
            for(int64_t i = 0; i < n; ++i) {
                PBT_CHECK((*calls)[i].load() == r + 1, "item " << i << " was processed " << (*calls)[i].load() << " times");
                PBT_CHECK(plain[i] == r + 1, "effect of item " << i << " is not visible");
            }
            int sum = 0;
            for(auto x : perThread) sum += x;
            PBT_CHECK(sum == n * (r + 1), "per-thread results add up to " << sum);
        } else {
            PBT_CHECK(!caught.empty(), "the exception of an item was swallowed");
            for(int64_t i = 0; i < n; ++i) PBT_CHECK((*calls)[i].load() <= r + 1, "item " << i << " was processed twice");
        }
    }
    // nothing may run once the call has returned (it would use dead captures)
    returned->store(true);
    if(!throwing.empty()) std::this_thread::sleep_for(std::chrono::milliseconds(2));
    PBT_CHECK(late->load() == 0, late->load() << " calls ran after the loop had returned");
    for(int64_t i = 0; i < n; ++i) plain[i] += 1;
}

PBT_TEST(pool) {
    const int threads = g.range(0, 9);
    const int tasks = g.range(0, 60);
    const bool waitAll = g.flip();
    const int nested = g.range(0, 3);
    g.desc << "threads " << threads << " tasks " << tasks << (waitAll ? " waitFinished" : " futures");
    g.nontrivial = threads > 1 && tasks > 1;
    std::vector<std::future<int>> res;
    std::vector<std::future<void>> vres;
    std::vector<int> slot(tasks, 0);
    std::vector<int> kinds(tasks);
    for(auto & k : kinds) { k = g.draw(4); if(k == 2 && !throwsAllowed) k = 0; }
    std::atomic<int> done{0}, bad{0};
    {
        ThreadPool pool(threads);
        PBT_CHECK(int(pool.nThreads()) == threads, "number of threads");
        for(int i = 0; i < tasks; ++i) {
            const int k = kinds[i];
            auto body = [&slot, &done, &bad, i, k, threads](int tid) {
                if(tid < 0 || tid >= std::max(1, threads)) bad.fetch_add(1);
                slot[i] = i + 1;
                if(k == 1) std::this_thread::sleep_for(std::chrono::microseconds(100));
                done.fetch_add(1);
                if(k == 2) throw Boom("task " + std::to_string(i));
                return i * 3;
            };
            if(k == 3) vres.push_back(pool.enqueue([body](int tid) { body(tid); }));
            else res.push_back(pool.enqueueReturning(body));
        }
        if(waitAll) {
            pool.waitFinished();
            PBT_CHECK(done.load() == tasks, "waitFinished returned with " << done.load() << " of " << tasks << " tasks done");
            for(int i = 0; i < tasks; ++i) PBT_CHECK(slot[i] == i + 1, "effect of task " << i << " not visible");
        }
        std::size_t ri = 0, vi = 0;
        for(int i = 0; i < tasks; ++i) {
            if(kinds[i] == 3) { vres[vi++].get(); }
            else {
                bool threw = false; int v = -1;
                try { v = res[ri].get(); } catch(const Boom & e) { threw = true; PBT_CHECK(std::string(e.what()) == "task " + std::to_string(i), "wrong exception " << e.what()); }
                ++ri;
                PBT_CHECK(threw == (kinds[i] == 2), "exception of task " << i << (threw ? " unexpected" : " lost"));
                if(!threw) PBT_CHECK(v == i * 3, "result of task " << i << " is " << v);
            }
            PBT_CHECK(slot[i] == i + 1, "effect of task " << i << " not visible");
        }
        // with every future answered the pool can be used again
        for(int k = 0; k < nested; ++k) {
            auto fut = pool.enqueueReturning([k](int) { return k; });
            PBT_CHECK(fut.get() == k, "result of a later task");
        }
        pool.waitFinished();
    }
    PBT_CHECK(bad.load() == 0, "thread id out of range");
    PBT_CHECK(done.load() == tasks, "tasks done");
}

// A pool that ends with queued tasks: each task either ran completely, or its future says that it never will.
PBT_TEST(drop) {
    const int threads = g.range(1, 5), tasks = g.range(0, 40);
    g.desc << "threads " << threads << " tasks " << tasks;
    g.nontrivial = tasks > threads;
    auto ran = std::make_shared<std::vector<std::atomic<int>>>(tasks + 1);
    std::vector<std::future<int>> res;
    {
        ThreadPool pool(threads);
        for(int i = 0; i < tasks; ++i)
            res.push_back(pool.enqueueReturning([ran, i](int) { std::this_thread::sleep_for(std::chrono::microseconds(30)); (*ran)[i].fetch_add(1); return i; }));
    }
    for(int i = 0; i < tasks; ++i) {
        PBT_CHECK(res[i].wait_for(std::chrono::seconds(0)) == std::future_status::ready, "task " << i << " is abandoned: its future never becomes ready");
        bool broken = false; int v = -1;
        try { v = res[i].get(); } catch(const std::future_error &) { broken = true; }
        PBT_CHECK((*ran)[i].load() == (broken ? 0 : 1), "task " << i << " ran " << (*ran)[i].load() << " times, future " << (broken ? "broken" : "fulfilled"));
        if(!broken) PBT_CHECK(v == i, "result");
        g.label("dropped", broken);
    }
}

PBT_MAIN
