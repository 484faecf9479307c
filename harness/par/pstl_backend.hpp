// Stand-in for libstdc++'s TBB back end of the parallel algorithms, used by the race monitor.
// TBB is not instrumented and its worker pool orders almost everything before everything else, so a
// race detector sees neither its accesses nor the absence of ordering. Here every parallel algorithm
// runs on freshly started std::threads whose only ordering is start and join - exactly what the
// standard promises for std::execution::par - and the work is cut into small chunks dealt to them in
// a seeded random way.
#ifndef VP_PSTL_BACKEND_HPP
#define VP_PSTL_BACKEND_HPP
#define _PSTL_PARALLEL_BACKEND_TBB_H
#include <algorithm>
#include <atomic>
#include <cstddef>
#include <cstdint>
#include <memory>
#include <numeric>
#include <optional>
#include <thread>
#include <utility>
#include <vector>
namespace vp_par
{
    struct Stats
    {
        std::atomic<std::uint64_t> regions{ 0 }, threads{ 0 }, chunks{ 0 }, nested{ 0 };
        std::atomic<std::uint64_t> schedules{ 0 };   // xor of schedule hashes
        std::atomic<std::uint64_t> seed{ 1 };
    };
    inline Stats& stats() { static Stats s; return s; }
    inline thread_local int depth = 0;
    inline std::uint64_t mix(std::uint64_t z)
    {
        z += 0x9e3779b97f4a7c15ULL; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31);
    }
    inline std::uint64_t draw() { return mix(stats().seed.fetch_add(1, std::memory_order_relaxed)); }
    struct Plan { std::size_t chunk, parts; unsigned threads; std::vector<unsigned char> owner; };
    inline Plan plan(std::size_t n)
    {
        Plan p{ n, n ? 1u : 0u, 1, { 0 } };
        if (n < 2) return p;
        if (depth >= 2) { stats().nested.fetch_add(1, std::memory_order_relaxed); return p; }
        const std::uint64_t z = draw();
        p.threads = depth ? 2 : 2 + (unsigned)(z % 3);
        // one element per chunk for short ranges, otherwise some 3 to 40 chunks
        const std::size_t want = n <= 12 ? n : 3 + (std::size_t)((z >> 8) % 38);
        p.chunk = std::max<std::size_t>(1, n / want);
        p.parts = (n + p.chunk - 1) / p.chunk;
        p.owner.resize(p.parts);
        for (std::size_t i = 0; i < p.parts; ++i) p.owner[i] = (unsigned char)(mix(z + i) % p.threads);
        p.owner[0] = 0; p.owner[p.parts - 1] = (unsigned char)(p.threads - 1);
        stats().regions.fetch_add(1, std::memory_order_relaxed);
        stats().threads.fetch_add(p.threads, std::memory_order_relaxed);
        stats().chunks.fetch_add(p.parts, std::memory_order_relaxed);
        return p;
    }
    // f(part index, begin offset, end offset) for every part, each on its owner
    template<class F> void deal(const Plan& p, std::size_t n, F&& f)
    {
        if (p.parts <= 1) { if (p.parts) f(std::size_t(0), std::size_t(0), n); return; }
        const int d = depth;
        auto body = [&](unsigned me) {
            depth = d + 1;
            for (std::size_t i = 0; i < p.parts; ++i) if (p.owner[i] == me) f(i, i * p.chunk, std::min(n, (i + 1) * p.chunk));
            depth = d;
        };
        std::vector<std::thread> t;
        for (unsigned k = 1; k < p.threads; ++k) t.emplace_back(body, k);
        body(0);
        for (auto& x : t) x.join();
    }
}
namespace __pstl
{
namespace __tbb_backend
{
template <typename _Tp>
class __buffer
{
    std::allocator<_Tp> __a;
    _Tp* __p;
    const std::size_t __n;
    __buffer(const __buffer&) = delete;
    void operator=(const __buffer&) = delete;
  public:
    __buffer(std::size_t __c) : __p(__a.allocate(__c)), __n(__c) {}
    operator bool() const { return __p != nullptr; }
    _Tp* get() const { return __p; }
    ~__buffer() { __a.deallocate(__p, __n); }
};
inline void __cancel_execution() {}

template <class _ExecutionPolicy, class _Index, class _Fp, class _Tag>
void __parallel_for(_Tag, _ExecutionPolicy&&, _Index __first, _Index __last, _Fp __f)
{
    const std::size_t n = (std::size_t)(__last - __first);
    const auto p = vp_par::plan(n);
    vp_par::deal(p, n, [&](std::size_t, std::size_t b, std::size_t e) { __f(__first + b, __first + e); });
}
template <class _ExecutionPolicy, class _Value, class _Index, typename _RealBody, typename _Reduction, class _Tag>
_Value __parallel_reduce(_Tag, _ExecutionPolicy&&, _Index __first, _Index __last, const _Value& __identity, const _RealBody& __body, const _Reduction& __red)
{
    const std::size_t n = (std::size_t)(__last - __first);
    if (!n) return __identity;
    const auto p = vp_par::plan(n);
    std::vector<std::optional<_Value>> part(p.parts);
    vp_par::deal(p, n, [&](std::size_t i, std::size_t b, std::size_t e) { part[i].emplace(__body(__first + b, __first + e, __identity)); });
    _Value out = *part[0];
    for (std::size_t i = 1; i < p.parts; ++i) out = __red(out, *part[i]);
    return out;
}
template <class _ExecutionPolicy, class _Index, class _UnaryOp, class _Tp, class _BinaryOp, class _Reduce, class _Tag>
_Tp __parallel_transform_reduce(_Tag, _ExecutionPolicy&&, _Index __first, _Index __last, _UnaryOp __u, _Tp __init, _BinaryOp __combine, _Reduce __brick)
{
    const std::size_t n = (std::size_t)(__last - __first);
    if (n < 4) return __brick(__first, __last, __init);
    auto p = vp_par::plan(n);
    if (p.parts <= 1 || p.chunk < 2) return __brick(__first, __last, __init);
    // every chunk starts from its own first element, as the reduction has no identity
    std::vector<std::optional<_Tp>> part(p.parts);
    vp_par::deal(p, n, [&](std::size_t i, std::size_t b, std::size_t e) {
        if (e - b == 1) part[i].emplace(__u(__first + b));
        else part[i].emplace(__brick(__first + b + 1, __first + e, (_Tp)__u(__first + b)));
    });
    _Tp out = __init;
    for (auto& x : part) out = __combine(out, *x);
    return out;
}
template <class _ExecutionPolicy, typename _Index, typename _Tp, typename _Rp, typename _Cp, typename _Sp, typename _Ap, class _Tag>
void __parallel_strict_scan(_Tag, _ExecutionPolicy&&, _Index __n, _Tp __initial, _Rp __reduce, _Cp __combine, _Sp __scan, _Ap __apex)
{
    _Tp __sum = __initial;
    if (__n) __sum = __combine(__sum, __reduce(_Index(0), __n));
    __apex(__sum);
    if (__n) __scan(_Index(0), __n, __initial);
}
template <class _ExecutionPolicy, class _Index, class _UnaryOp, class _Tp, class _BinaryOp, class _Reduce, class _Scan, class _Tag>
_Tp __parallel_transform_scan(_Tag, _ExecutionPolicy&&, _Index __n, _UnaryOp, _Tp __init, _BinaryOp, _Reduce, _Scan __scan)
{
    return __scan(_Index(0), __n, __init);
}
template <class _ExecutionPolicy, typename _It, typename _Compare, typename _LeafSort, class _Tag>
void __parallel_stable_sort(_Tag, _ExecutionPolicy&&, _It __first, _It __last, _Compare __comp, _LeafSort __leaf, std::size_t = 0)
{
    const std::size_t n = (std::size_t)(__last - __first), h = n / 2;
    if (n > 4 && vp_par::depth == 0)
    {
        std::thread t([&] { __leaf(__first, __first + h, __comp); });
        __leaf(__first + h, __last, __comp);
        t.join();
        std::inplace_merge(__first, __first + h, __last, __comp);
    }
    else __leaf(__first, __last, __comp);
}
template <class _ExecutionPolicy, typename _It1, typename _It2, typename _It3, typename _Compare, typename _LeafMerge, class _Tag>
void __parallel_merge(_Tag, _ExecutionPolicy&&, _It1 __f1, _It1 __l1, _It2 __f2, _It2 __l2, _It3 __o, _Compare __comp, _LeafMerge __leaf)
{
    __leaf(__f1, __l1, __f2, __l2, __o, __comp);
}
template <class _ExecutionPolicy, typename _F1, typename _F2, class _Tag>
void __parallel_invoke(_Tag, _ExecutionPolicy&&, _F1&& __f1, _F2&& __f2)
{
    std::thread t([&] { std::forward<_F1>(__f1)(); });
    std::forward<_F2>(__f2)();
    t.join();
}
}
}
#endif
