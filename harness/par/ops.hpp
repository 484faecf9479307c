// Operations exercised by the schedule monitors (C07: results do not depend on policy, thread count or
// schedule; C08: no data race). Every operation derives its input from a seed and reduces all it
// returns to a list of numbers.
#ifndef VP_PAR_OPS_HPP
#define VP_PAR_OPS_HPP
#ifndef VP_WITH_MAIN
#define VP_NO_MAIN
#endif
#include "img.hpp"
#include "image_operations.h"
#include <mutex>
namespace par
{
    using namespace vp;
    namespace td = TinyDIP;
    struct Dig
    {
        std::vector<double> v;
        double tol = 1e-9;
        template<class T> void add(const T& x)
        {
            if constexpr (std::is_arithmetic_v<T>) v.push_back((double)x);
            else if constexpr (is_cplx<T>::value) { v.push_back(x.real()); v.push_back(x.imag()); }
            else if constexpr (multi<T>) for (auto& c : x.channels) add(c);
            else if constexpr (requires { x.first; x.second; }) { add(x.first); add(x.second); }
            else if constexpr (requires { x.getImageData(); }) { for (auto s : x.getSize()) add(s); for (const auto& e : x.getImageData()) { const std::remove_cvref_t<decltype(e)> q = e; add(q); } }
            else { add(std::size(x)); for (const auto& e : x) { const std::remove_cvref_t<decltype(e)> q = e; add(q); } }
        }
    };
    struct Op { const char* name; bool policy; std::function<void(int, Rng&, Dig&)> run; };
    std::vector<Op>& ops();
    struct Add { Add(const char* n, bool p, std::function<void(int, Rng&, Dig&)> f) { ops().push_back({ n, p, std::move(f) }); } };
    template<class F> void with(int which, F&& f)
    {
#ifdef VP_TSAN
        (void)which;
        f(std::execution::par);
#else
        with_policy(which, std::forward<F>(f));
#endif
    }
    inline Sz shape(Rng& r, std::size_t lo = 2, std::size_t hi = 40)
    {
        if (hi >= 20 && r.chance(0.02)) return r.chance(0.5) ? Sz{ r.size(90, 140), r.size(80, 120) } : r.chance(0.5) ? Sz{ r.size(257, 300), r.size(lo, lo + 3) } : Sz{ r.size(lo, lo + 3), r.size(257, 300) }; // now and then much larger
        return { r.size(lo, hi), r.size(lo, hi) };
    }
}
using namespace par;
#define POLICY_OP(id) template<class P> static void op_##id(P&& pol, Rng& r, Dig& d); \
    static par::Add add_##id(#id, true, [](int w, Rng& r, Dig& d) { par::with(w, [&](auto&& p) { op_##id(p, r, d); }); }); \
    template<class P> static void op_##id([[maybe_unused]] P&& pol, [[maybe_unused]] Rng& r, [[maybe_unused]] Dig& d)
#define PLAIN_OP(id) static void op_##id(Rng& r, Dig& d); static par::Add add_##id(#id, false, [](int, Rng& r, Dig& d) { op_##id(r, d); }); \
    static void op_##id([[maybe_unused]] Rng& r, [[maybe_unused]] Dig& d)
#endif
