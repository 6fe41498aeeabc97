//THREADS
//BOUND every interleaving of the scheduling points (atomic accesses, mutex operations, thread start/end/join, sleeps) with up to 2 preemptions (3 thorough); sequentially consistent memory
#include "hg.h"
#include <vif/utility/time.hpp>
#include <vif/utility/thread.hpp>
//RUN quick h_queue 1..3 --preempt 3
//RUN thorough h_queue 1..4 --preempt 4
namespace { struct item { int v; static int live; item() : v(-1) { ++live; } item(int x) : v(x) { ++live; } item(const item& o) : v(o.v) { ++live; } ~item() { --live; } item& operator=(const item& o) { v = o.v; return *this; } }; int item::live; }
ENTRY h_queue(u64 n) {
    int val[4], got[4] = {-1, -1, -1, -1}; u64 ng = 0;
    for (u64 i = 0; i < n; ++i) val[i] = sym_int("v");
    {
        thread::lock_free_queue<int> q;
        std::thread c([&]() { for (int k = 0; k < 6 && ng < n; ++k) { int t; if (q.pop(t)) { got[ng] = t; ++ng; } } });
        for (u64 i = 0; i < n; ++i) q.push(val[i]);
        c.join();
        u64 left = q.size();
        CHECKM(left == n - ng, "queue: elements pushed = elements popped + elements left");
        CHECKM(q.empty() == (left == 0), "queue: empty");
        int t; while (ng < n && q.pop(t)) { got[ng] = t; ++ng; }
        CHECKM(ng == n && !q.pop(t), "queue: nothing lost or duplicated");
    }
    for (u64 i = 0; i < n; ++i) CHECKM(got[i] == val[i], "queue: first in, first out");
    REACH("queue");
}
// a history of pushes, pops and clears by one thread: first in first out, nothing left after clear, every element destroyed
//RUN quick h_queue_seq 1..5
//RUN thorough h_queue_seq 6..8
ENTRY h_queue_seq(u64 n) {
    {
        thread::lock_free_queue<item> q; int next = 0, front = 0;
        for (u64 i = 0; i < n; ++i) {
            int op = (int)pick(0, 2, "op");
            if (op == 0) q.push(item(next++));
            else if (op == 1) { item t; bool r = q.pop(t); CHECKM(r == (front < next), "queue: pop succeeds when there is an element"); if (r) { CHECKM(t.v == front, "queue: order"); ++front; } }
            else { q.clear(); front = next; }
            CHECKM(q.size() == (u64)(next - front) && q.empty() == (next == front), "queue: size and empty");
        }
        if (vf_conc(sym_bool("clear"))) { q.clear(); CHECKM(item::live == 1, "queue: clear destroys the elements"); }
    }
    CHECKM(item::live == 0, "queue: every element is destroyed");
    REACH("queue_seq");
}
// size and empty, asked by the consumer while the producer pushes: never more than what has been pushed, never less than what is known to be there
//RUN quick h_queue_size 1..3 --preempt 3
//RUN thorough h_queue_size 1..4 --preempt 4
ENTRY h_queue_size(u64 n) {
    u64 ng = 0; std::atomic<int> sent(0); bool ok = true;
    thread::lock_free_queue<int> q; q.push(7); ++sent;
    std::thread c([&]() {
        for (int k = 0; k < 3; ++k) {
            u64 lo = (u64)sent; u64 a = q.size(); bool e = q.empty();
            ok &= a + ng >= lo && a + ng <= n + 1 && !(e && a > 0);
            int t; bool p = q.pop(t); ok &= p || a == 0; if (p) { ok &= t == (int)(7 + ng); ++ng; }
        }
    });
    for (u64 i = 1; i <= n; ++i) { q.push((int)(7 + i)); ++sent; }
    c.join();
    CHECKM(ok, "queue: size and empty seen by the consumer");
    CHECKM(q.size() + ng == n + 1, "queue: size after the consumer has finished");
    REACH("queue_size");
}
// every index of [first,last) exactly once, no other index, all done on return, twice in a row
//RUN quick h_pfor 0..3 0..4 0 --preempt 2
//RUN quick h_pfor 1..2 1..5 2 --preempt 2
//RUN thorough h_pfor 0..3 0..6 0..2 --preempt 3
static int cnt[16]; static bool outside;
ENTRY h_pfor(u64 nw, u64 n, u64 first) {
    thread::parallel_for p(nw);
    CHECKM(p.size() == nw, "number of workers");
    p.chunk_size = (u64)pick(0, 2, "chunk");
    for (int r = 1; r <= 2; ++r) {
        auto f = [&](uint_t i) { if (i < first || i >= first + n) outside = true; else ++cnt[i]; };
        if (first == 0) p.execute(f, n); else p.execute(f, first, first + n);
        CHECKM(!outside, "parallel_for: no index outside of the range");
        for (u64 i = first; i < first + n; ++i) CHECKM(cnt[i] == r, "parallel_for: every index exactly once, before execute returns");
        if (nw > 1) break;
    }
    REACH("pfor");
}
// jobs run once each, in order, all done when wait() returns or the worker is destroyed; reusable
//RUN quick h_worker 0..2 0..1 --preempt 2
//RUN thorough h_worker 0..3 0..2 --preempt 3
static int order_[8], nrun;
ENTRY h_worker(u64 n, u64 m) {
    {
        thread::worker w;
        for (u64 i = 0; i < n; ++i) w.push([i]() { order_[nrun++] = (int)i; });
        w.wait();
        CHECKM(nrun == (int)n, "worker: all jobs done when wait returns");
        for (u64 i = 0; i < m; ++i) w.push([i,n]() { order_[nrun++] = (int)(n + i); });
    }
    CHECKM(nrun == (int)(n + m), "worker: all jobs done when the worker is destroyed");
    for (u64 i = 0; i < n + m; ++i) CHECKM(order_[i] == (int)i, "worker: jobs run in order");
    REACH("worker");
}
// every job exactly once, by the worker it was given to, and all done after join
//RUN quick h_wpool 1..2 0..3 0 --preempt 2
//RUN quick h_wpool 1 0..3 1 --preempt 2
//RUN quick h_wpool 2 1..2 1 --preempt 0
//RUN thorough h_wpool 1..2 0..4 0 --preempt 3
//RUN thorough h_wpool 1 0..4 1 --preempt 3
//RUN thorough h_wpool 2 1..2 1 --preempt 1
ENTRY h_wpool(u64 nw, u64 n, u64 consume) {
    {
        thread::worker_pool<int> p(nw, [](int i) { ++cnt[i]; });
        CHECKM(p.size() == nw, "number of workers");
        for (u64 i = 0; i < n; ++i) p.process((int)i);
        if (consume) { p.consume_all(); CHECKM(p.remaining() == 0, "worker_pool: nothing left in the queues after consume_all"); }
        p.join();
        for (u64 i = 0; i < n; ++i) CHECKM(cnt[i] == 1, "worker_pool: every job exactly once");
    }
    REACH("wpool");
}
struct wsp_t { int n; explicit wsp_t(int i) : n(i) {} };
//RUN quick h_wpool2 1..2 0..2 --preempt 2
//RUN thorough h_wpool2 1..2 0..4 --preempt 3
ENTRY h_wpool2(u64 nw, u64 n) {
    int used[2] = {0, 0};
    {
        thread::worker_pool<int,wsp_t> p;
        p.start(nw, [](wsp_t& w, int i) { ++w.n; ++cnt[i]; }, 5);
        for (u64 i = 0; i < n; ++i) { u64 k = (u64)pick(0, (i64)nw - 1, "w"); ++used[k]; p.process(k, (int)i); }
        p.join();
        for (u64 i = 0; i < n; ++i) CHECKM(cnt[i] == 1, "worker_pool with workspace: every job exactly once");
        for (u64 k = 0; k < nw; ++k) CHECKM(p.workers[k]->wsp.n == 5 + used[k], "worker_pool: each worker uses its own workspace");
    }
    REACH("wpool2");
}
// a worker_pool that goes out of scope without an explicit join
//RUN both h_wpool3 1..2 1..2 --preempt 2
ENTRY h_wpool3(u64 nw, u64 n) {
    { thread::worker_pool<int> p(nw, [](int i) { ++cnt[i]; }); for (u64 i = 0; i < n; ++i) p.process((int)i); }
    for (u64 i = 0; i < n; ++i) CHECKM(cnt[i] == 1, "worker_pool: every job exactly once before the pool is destroyed");
    REACH("wpool3");
}
// plain threads
//RUN both h_threads 1..3 --preempt 2
ENTRY h_threads(u64 n) {
    auto p = thread::pool(n);
    CHECKM(p.size() == n, "pool size");
    for (u64 i = 0; i < n; ++i) p[i].start([](u64 k) { ++cnt[k]; }, i);
    for (u64 i = 0; i < n; ++i) { p[i].join(); CHECKM(cnt[i] == 1, "thread: done after join"); }
    REACH("threads");
}
// a pool started again: the jobs of the first start are done, and it runs new ones
//RUN both h_wpool_again 1..2 0..2 --preempt 2
ENTRY h_wpool_again(u64 nw, u64 n) {
    {
        thread::worker_pool<int> p(nw, [](int i) { ++cnt[i]; });
        for (u64 i = 0; i < n; ++i) p.process((int)i);
        bool j = pick(0, 1); if (j) p.join();
        p.start(1, [](int i) { cnt[i] += 10; });
        for (u64 i = 0; i < n; ++i) CHECKM(cnt[i] == 1, "worker_pool: jobs done before the pool is started again");
        CHECK(p.size() == 1);
        p.process((int)n); p.process((int)n + 1);
    }
    CHECKM(cnt[n] == 10 && cnt[n+1] == 10, "worker_pool: jobs of the second start done once, by the new workers");
    REACH("wpool_again");
}
// the same parallel_for used twice
//RUN both h_pfor_again 1..2 --preempt 2
ENTRY h_pfor_again(u64 nw) {
    thread::parallel_for p(nw); p.execute([](u64 i) { ++cnt[i]; }, 2); p.chunk_size = 1; p.execute([](u64 i) { cnt[i] += 10; }, 1, 3);
    CHECKM(cnt[0] == 1 && cnt[1] == 11 && cnt[2] == 10 && cnt[3] == 0, "parallel_for used again"); REACH("pfor_again");
}
