#define VP_NO_MAIN
#include "img.hpp"
#include "image_operations.h"
using namespace vp;
namespace td = TinyDIP;
namespace
{
template<class T, class F> auto ref1(const Image<T>& a, F f)
{
    const auto ra = snap(a);
    Ref<decltype(f(ra.d[0]))> o(ra.size);
    for (std::size_t i = 0; i < ra.d.size(); ++i) o.d[i] = f(ra.d[i]);
    return o;
}
// map every channel: result type compared channel by channel
template<class T, class U, class F> void each_channel(const Image<U>& got, const Image<T>& in, const char* key, double rel, double ab, F f)
{
    const auto a = snap(in); const auto g = snap(got);
    require(a.size == g.size && a.d.size() == g.d.size(), key, "shape ", shows(g.size), " instead of ", shows(a.size));
    static_assert(chan<T>::n == chan<U>::n);
    for (std::size_t i = 0; i < a.d.size(); ++i)
        for (std::size_t k = 0; k < chan<T>::n; ++k)
            require(same_value(g.d[i].channels[k], (std::remove_cvref_t<decltype(g.d[i].channels[k])>)f(a.d[i].channels[k]), rel, ab), key, "channel ", k, " of element ", i, " of ", shows(a.size));
    event("channel_values", a.d.size() * chan<T>::n);
}
Sz dims(Rng& r) { if (r.chance(0.2)) return { rnd_extent(r, 5), rnd_extent(r, 5), rnd_extent(r, 5) }; return rnd_size2(r, 14); }
template<class T, class F> Image<T> shaped(Rng& r, const Sz& s, F f)
{
    Image<T> im(s);
    for (auto& x : im.getImageData())
        if constexpr (multi<T>) { for (auto& y : x.channels) y = f(); } else x = f();
    return im;
}
}
template<class T> void channels(Rng& r, Case& c, const char* tn)
{
    const Sz s = dims(r);
    c.describe("channels ", tn, " ", shows(s)); c.trivial = product(s) < 2;
    auto a = rnd_image<T>(r, s), b = rnd_image<T>(r, s);
    Pure<T> pa(a, "channels"), pb(b, "channels");
    using E = std::remove_cvref_t<decltype(T{}.channels[0])>;
    {
        const auto g = snap(td::difference(a, b)), A = snap(a), B = snap(b);
        require(g.size == A.size, "difference-channels", "shape");
        for (std::size_t i = 0; i < g.d.size(); ++i) for (std::size_t k = 0; k < chan<T>::n; ++k)
            require(same_value(g.d[i].channels[k], (E)(A.d[i].channels[k] > B.d[i].channels[k] ? A.d[i].channels[k] - B.d[i].channels[k] : B.d[i].channels[k] - A.d[i].channels[k]), 1e-12, 1e-9),
                "difference-channels", "channel ", k, " of element ", i);
    }
    {
        const auto g = snap(td::add(a, b)), A = snap(a), B = snap(b);
        require(g.size == A.size, "add-channels", "shape");
        for (std::size_t i = 0; i < g.d.size(); ++i) for (std::size_t k = 0; k < chan<T>::n; ++k)
            require(same_value(g.d[i].channels[k], (E)(A.d[i].channels[k] + B.d[i].channels[k]), 1e-12, 1e-9), "add-channels", "channel ", k, " of element ", i);
        const auto h = snap(td::subtract(a, b));
        for (std::size_t i = 0; i < h.d.size(); ++i) for (std::size_t k = 0; k < chan<T>::n; ++k)
        {
            auto w = A.d[i].channels[k] - B.d[i].channels[k];
            if constexpr (std::is_same_v<T, RGB>) w = w < 0 ? 0 : w;   // RGB differences saturate
            require(same_value(h.d[i].channels[k], (E)w, 1e-12, 1e-9), "subtract-channels", "channel ", k, " of element ", i);
        }
    }
    require(throws([&] { td::subtract(a, rnd_image<T>(r, { s[0] + 1, s.size() > 1 ? s[1] : 1 })); }), "size-mismatch:subtract-channels", "accepted");
    require(throws([&] { td::difference(a, rnd_image<T>(r, { s[0] + 1, s.size() > 1 ? s[1] : 1 })); }), "size-mismatch:difference-channels", "accepted");
    event("mismatch_rejections", 2);
    if (s.size() == 2)
    {
        const double t = r.real(0, 2);
        each_channel(td::multiplies(a, t), a, "multiplies-channels", 1e-9, 1e-9, [&](auto x) { return x * t; });
        each_channel(td::abs(a), a, "abs-channels", 1e-9, 1e-9, [&](auto x) { return std::fabs((double)x); });
        each_channel(td::pow(a, 2.0), a, "pow-channels", 1e-9, 1e-9, [&](auto x) { return (double)x * x; });
        if constexpr (!std::is_same_v<T, RGB>) each_channel(td::sin(a), a, "sin-channels", 1e-9, 1e-9, [&](auto x) { return std::sin(x); });
        if constexpr (!std::is_same_v<T, RGB>) each_channel(td::cos(a), a, "cos-channels", 1e-9, 1e-9, [&](auto x) { return std::cos(x); });
        if constexpr (chan<T>::n == 3) for (int p = 0; p < 4; ++p) with_policy(p, [&](auto pol) {
            each_channel(td::abs(pol, a), a, "abs-channels-policy", 1e-9, 1e-9, [&](auto x) { return std::fabs((double)x); });
            each_channel(td::pow(pol, a, 2.0), a, "pow-channels-policy", 1e-9, 1e-9, [&](auto x) { return (double)x * x; });
        });
        each_channel(td::apply_each(a, [](auto&& pl, int k) { return td::multiplies(pl, k); }, 3), a, "apply_each", 1e-9, 1e-9, [&](auto x) { return x * 3; });
    }
    pa.check(); pb.check();
}
