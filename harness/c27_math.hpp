// C27: the mathematical functions act on every channel of a multichannel value exactly as the standard
// function acts on a number, with every execution policy.
#include "img.hpp"
#include "basic_functions.h"
#include <complex>
using namespace vp;
namespace td = TinyDIP;
template<class T> T hostile(Rng& r)
{
    switch (r.range(0, 11))
    {
    case 0: return T(0);
    case 1: return -T(0);
    case 2: return std::numeric_limits<T>::infinity() * (r.chance(0.5) ? 1 : -1);
    case 3: return std::numeric_limits<T>::quiet_NaN();
    case 4: return std::numeric_limits<T>::denorm_min() * (T)r.range(1, 9);
    case 5: return std::numeric_limits<T>::max() * (T)r.real(0.1, 1);
    case 6: return (T)r.range(-6, 6) + (r.chance(0.5) ? T(0.5) : T(0));
    case 7: return (T)r.real(-1, 1);
    case 8: return (T)(r.real(-1, 1) * std::pow(10.0, (double)r.range(-30, 30)));
    case 9: return (T)1;
    default: return (T)r.real(-50, 50);
    }
}
template<class A, class B> bool bits(const A& a, const B& b)
{
    if constexpr (is_cplx<A>::value) return bits(a.real(), b.real()) && bits(a.imag(), b.imag());
    else if constexpr (std::is_floating_point_v<A>) return (std::isnan(a) && std::isnan(b)) || (a == b && std::signbit(a) == std::signbit(b));
    else return a == b;
}
template<class V, class G, class W> void channels(const V& in, const G& got, const char* key, W&& want)
{
    require(std::size(got.channels) == std::size(in.channels), key, std::size(got.channels), " channels");
    for (std::size_t i = 0; i < std::size(in.channels); ++i)
    {
        const auto w = want(in.channels[i]);
        static_assert(std::is_same_v<std::remove_cvref_t<decltype(got.channels[i])>, std::remove_cvref_t<decltype(w)>> || true);
        if (!bits(got.channels[i], w)) fail(key, cat("channel ", i, ": of ", in.channels[i], " got ", got.channels[i], " want ", w));
    }
    event("channels", std::size(in.channels));
}
template<class V> V value(Rng& r) { V v{}; for (auto& x : v.channels) x = hostile<std::remove_cvref_t<decltype(x)>>(r); return v; }
#define MATH(NAME, WANT) \
    template<class V> void t_##NAME(const V& v, int pol) { auto want = [](auto x) { return WANT; }; \
        channels(v, td::NAME(v), #NAME, want); \
        if (pol == 0) channels(v, td::NAME(std::execution::seq, v), #NAME "-seq", want); else channels(v, td::NAME(std::execution::par, v), #NAME "-par", want); \
        const auto x = v.channels[0]; \
        require(bits(td::NAME(x), want(x)), #NAME "-scalar", "of ", x, " got ", td::NAME(x)); \
        require(bits(td::NAME(std::execution::seq, x), want(x)), #NAME "-scalar-policy", "of ", x); \
        event("fn_" #NAME); }
