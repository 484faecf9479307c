// Stand-in for libgomp, used by the race monitor: the same entry points the compiler emits calls to,
// on std::threads the race detector understands. Regions are ordered only by start and join.
#include "par/pstl_backend.hpp"
#include <mutex>
#include <condition_variable>
#include <cstdlib>
namespace
{
    struct Barrier
    {
        std::mutex m; std::condition_variable c; unsigned n, here = 0, gen = 0;
        explicit Barrier(unsigned k) : n(k) {}
        void wait() { std::unique_lock l(m); const unsigned g = gen; if (++here == n) { here = 0; ++gen; c.notify_all(); } else c.wait(l, [&] { return gen != g; }); }
    };
    struct Loop { std::mutex m; bool open = false; long next = 0, end = 0, incr = 1, chunk = 1; unsigned done = 0; unsigned single = 0; };
    struct Team { unsigned n; Barrier b; Loop loop; explicit Team(unsigned k) : n(k), b(k) {} };
    thread_local Team* team = nullptr;
    thread_local unsigned me = 0;
    std::mutex critical;
    std::recursive_mutex atomic_lock;
    int forced = 0;
}
extern "C"
{
    int omp_get_num_threads() { return team ? (int)team->n : 1; }
    int omp_get_thread_num() { return (int)me; }
    int omp_get_max_threads() { return forced > 0 ? forced : 4; }
    int omp_get_num_procs() { return 8; }
    int omp_in_parallel() { return team != nullptr; }
    void omp_set_num_threads(int n) { forced = n; }
    void omp_set_dynamic(int) {}
    int omp_get_dynamic() { return 0; }
    void omp_set_nested(int) {}
    void omp_set_max_active_levels(int) {}
    double omp_get_wtime() { return 0; }
    void GOMP_parallel(void (*fn)(void*), void* data, unsigned num, unsigned)
    {
        const unsigned depth = (unsigned)vp_par::depth;
        unsigned n = num ? num : (forced > 0 ? (unsigned)forced : 2 + (unsigned)(vp_par::draw() % 4));
        if (team || depth) n = depth >= 2 || (team && num == 0 && depth >= 1) ? 1 : std::min(n, 2u);
        Team t(n);
        Team* const outer = team; const unsigned outer_me = me; const int d = vp_par::depth;
        vp_par::stats().regions.fetch_add(n > 1, std::memory_order_relaxed);
        vp_par::stats().threads.fetch_add(n > 1 ? n : 0, std::memory_order_relaxed);
        if (n == 1) vp_par::stats().nested.fetch_add(1, std::memory_order_relaxed);
        auto body = [&](unsigned k) { team = &t; me = k; vp_par::depth = d + 1; fn(data); team = nullptr; me = 0; };
        std::vector<std::thread> th;
        for (unsigned k = 1; k < n; ++k) th.emplace_back(body, k);
        body(0);
        for (auto& x : th) x.join();
        team = outer; me = outer_me; vp_par::depth = d;
    }
    void GOMP_barrier() { if (team) team->b.wait(); }
    void GOMP_critical_start() { critical.lock(); }
    void GOMP_critical_end() { critical.unlock(); }
    void GOMP_critical_name_start(void** p) { critical.lock(); (void)p; }
    void GOMP_critical_name_end(void** p) { (void)p; critical.unlock(); }
    void GOMP_atomic_start() { atomic_lock.lock(); }
    void GOMP_atomic_end() { atomic_lock.unlock(); }
    bool GOMP_single_start() { return me == 0; }
    // work-shared loops with a dynamic schedule
    static bool take(long* b, long* e)
    {
        Loop& l = team->loop;
        std::lock_guard g(l.m);
        const long left = l.incr > 0 ? l.end - l.next : l.next - l.end;
        if (left <= 0) return false;
        const long step = l.chunk * (l.incr > 0 ? l.incr : -l.incr);
        *b = l.next;
        *e = l.incr > 0 ? std::min(l.end, l.next + step) : std::max(l.end, l.next - step);
        l.next = *e;
        return true;
    }
    static void open_loop(long s, long e, long i, long c)
    {
        Loop& l = team->loop;
        std::lock_guard g(l.m);
        if (!l.open) { l.open = true; l.next = s; l.end = e; l.incr = i; l.chunk = std::max(1L, c); l.done = 0; }
    }
    static bool start_loop(long s, long e, long i, long c, long* b, long* x) { if (!team) { *b = s; *x = e; return s != e; } open_loop(s, e, i, c); return take(b, x); }
    static void parallel_loop(void (*fn)(void*), void* data, unsigned num, long s, long e, long i, long c)
    {
        struct Pack { void (*fn)(void*); void* data; long s, e, i, c; } p{ fn, data, s, e, i, c };
        GOMP_parallel([](void* q) { auto* k = (Pack*)q; open_loop(k->s, k->e, k->i, k->c); k->fn(k->data); }, &p, num, 0);
    }
    bool GOMP_loop_dynamic_start(long s, long e, long i, long c, long* b, long* x) { return start_loop(s, e, i, c, b, x); }
    bool GOMP_loop_nonmonotonic_dynamic_start(long s, long e, long i, long c, long* b, long* x) { return start_loop(s, e, i, c, b, x); }
    bool GOMP_loop_guided_start(long s, long e, long i, long c, long* b, long* x) { return start_loop(s, e, i, c, b, x); }
    bool GOMP_loop_nonmonotonic_guided_start(long s, long e, long i, long c, long* b, long* x) { return start_loop(s, e, i, c, b, x); }
    bool GOMP_loop_runtime_start(long s, long e, long i, long* b, long* x) { return start_loop(s, e, i, 1, b, x); }
    bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long i, long* b, long* x) { return start_loop(s, e, i, 1, b, x); }
    bool GOMP_loop_dynamic_next(long* b, long* x) { return team && take(b, x); }
    bool GOMP_loop_nonmonotonic_dynamic_next(long* b, long* x) { return team && take(b, x); }
    bool GOMP_loop_guided_next(long* b, long* x) { return team && take(b, x); }
    bool GOMP_loop_nonmonotonic_guided_next(long* b, long* x) { return team && take(b, x); }
    bool GOMP_loop_runtime_next(long* b, long* x) { return team && take(b, x); }
    bool GOMP_loop_maybe_nonmonotonic_runtime_next(long* b, long* x) { return team && take(b, x); }
    // a loop is closed once everyone has left it, and (without nowait) nobody goes on before that
    static void leave_loop()
    {
        if (!team) return;
        Loop& l = team->loop;
        { std::lock_guard g(l.m); if (++l.done == team->n) l.open = false; }
        team->b.wait();
    }
    void GOMP_loop_end() { leave_loop(); }
    void GOMP_loop_end_nowait() { leave_loop(); }
    void GOMP_parallel_loop_dynamic(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned) { parallel_loop(fn, d, n, s, e, i, c); }
    void GOMP_parallel_loop_nonmonotonic_dynamic(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned) { parallel_loop(fn, d, n, s, e, i, c); }
    void GOMP_parallel_loop_guided(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned) { parallel_loop(fn, d, n, s, e, i, c); }
    void GOMP_parallel_loop_nonmonotonic_guided(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned) { parallel_loop(fn, d, n, s, e, i, c); }
    void GOMP_parallel_loop_runtime(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned) { parallel_loop(fn, d, n, s, e, i, 1); }
    void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned) { parallel_loop(fn, d, n, s, e, i, 1); }
    // unsigned long long versions of the same
    using U = unsigned long long;
    static bool utake(U* b, U* x) { long p, q; if (!team || !take(&p, &q)) return false; *b = (U)p; *x = (U)q; return true; }
    static bool ustart(bool up, U s, U e, U i, U c, U* b, U* x) { if (!team) { *b = s; *x = e; return s != e; } open_loop((long)s, (long)e, up ? (long)i : -(long)(0 - i), (long)c); return utake(b, x); }
    bool GOMP_loop_ull_dynamic_start(bool up, U s, U e, U i, U c, U* b, U* x) { return ustart(up, s, e, i, c, b, x); }
    bool GOMP_loop_ull_nonmonotonic_dynamic_start(bool up, U s, U e, U i, U c, U* b, U* x) { return ustart(up, s, e, i, c, b, x); }
    bool GOMP_loop_ull_guided_start(bool up, U s, U e, U i, U c, U* b, U* x) { return ustart(up, s, e, i, c, b, x); }
    bool GOMP_loop_ull_nonmonotonic_guided_start(bool up, U s, U e, U i, U c, U* b, U* x) { return ustart(up, s, e, i, c, b, x); }
    bool GOMP_loop_ull_runtime_start(bool up, U s, U e, U i, U* b, U* x) { return ustart(up, s, e, i, 1, b, x); }
    bool GOMP_loop_ull_maybe_nonmonotonic_runtime_start(bool up, U s, U e, U i, U* b, U* x) { return ustart(up, s, e, i, 1, b, x); }
    bool GOMP_loop_ull_dynamic_next(U* b, U* x) { return utake(b, x); }
    bool GOMP_loop_ull_nonmonotonic_dynamic_next(U* b, U* x) { return utake(b, x); }
    bool GOMP_loop_ull_guided_next(U* b, U* x) { return utake(b, x); }
    bool GOMP_loop_ull_nonmonotonic_guided_next(U* b, U* x) { return utake(b, x); }
    bool GOMP_loop_ull_runtime_next(U* b, U* x) { return utake(b, x); }
    bool GOMP_loop_ull_maybe_nonmonotonic_runtime_next(U* b, U* x) { return utake(b, x); }
}
