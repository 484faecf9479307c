#define VP_NO_MAIN
#include "img.hpp"
#include "image_operations.h"
using namespace vp;
namespace td = TinyDIP;
namespace
{
template<class T, class F> auto ref1(const Image<T>& a, F f)
{
    const auto ra = snap(a);
    Ref<decltype(f(ra.d[0]))> o(ra.size);
    for (std::size_t i = 0; i < ra.d.size(); ++i) o.d[i] = f(ra.d[i]);
    return o;
}
// map every channel: result type compared channel by channel
template<class T, class U, class F> void each_channel(const Image<U>& got, const Image<T>& in, const char* key, double rel, double ab, F f)
{
    const auto a = snap(in); const auto g = snap(got);
    require(a.size == g.size && a.d.size() == g.d.size(), key, "shape ", shows(g.size), " instead of ", shows(a.size));
    static_assert(chan<T>::n == chan<U>::n);
    for (std::size_t i = 0; i < a.d.size(); ++i)
        for (std::size_t k = 0; k < chan<T>::n; ++k)
            require(same_value(g.d[i].channels[k], (std::remove_cvref_t<decltype(g.d[i].channels[k])>)f(a.d[i].channels[k]), rel, ab), key, "channel ", k, " of element ", i, " of ", shows(a.size));
    event("channel_values", a.d.size() * chan<T>::n);
}
Sz dims(Rng& r) { if (r.chance(0.2)) return { rnd_extent(r, 5), rnd_extent(r, 5), rnd_extent(r, 5) }; return rnd_size2(r, 14); }
template<class T, class F> Image<T> shaped(Rng& r, const Sz& s, F f)
{
    Image<T> im(s);
    for (auto& x : im.getImageData())
        if constexpr (multi<T>) { for (auto& y : x.channels) y = f(); } else x = f();
    return im;
}
}
VP_SECTION("functions.double", 300, 6000)
{
    const Sz s = dims(r);
    c.describe("functions double ", shows(s)); c.trivial = product(s) < 2;
    auto a = rnd_image<double>(r, s); auto u = shaped<double>(r, s, [&] { return r.real(-1, 1); }); auto n = shaped<double>(r, s, [&] { return r.real(0.1, 9); });
    Pure<double> pa(a, "functions");
    const auto D = [](auto f) { return [f](double x) { return (double)f(x); }; };
    expect(td::abs(a), ref1(a, D([](double x) { return std::fabs(x); })), "abs");
    expect(td::sin(a), ref1(a, D([](double x) { return std::sin(x); })), "sin", 1e-12, 1e-12);
    expect(td::cos(a), ref1(a, D([](double x) { return std::cos(x); })), "cos", 1e-12, 1e-12);
    expect(td::tan(u), ref1(u, D([](double x) { return std::sin(x) / std::cos(x); })), "tan", 1e-9, 1e-12);
    auto v = shaped<double>(r, s, [&] { return r.real(0.2, 1.3) * (r.chance(0.5) ? 1 : -1); });
    expect(td::cot(v), ref1(v, D([](double x) { return std::cos(x) / std::sin(x); })), "cot", 1e-9, 1e-12);
    expect(td::sec(v), ref1(v, D([](double x) { return 1 / std::cos(x); })), "sec", 1e-9, 1e-12);
    expect(td::csc(v), ref1(v, D([](double x) { return 1 / std::sin(x); })), "csc", 1e-9, 1e-12);
    expect(td::asin(u), ref1(u, D([](double x) { return std::asin(x); })), "asin", 1e-9, 1e-12);
    expect(td::acos(u), ref1(u, D([](double x) { return std::acos(x); })), "acos", 1e-9, 1e-12);
    const double e = r.chance(0.5) ? (double)r.range(0, 4) : r.real(0, 3);
    expect(td::pow(n, e), ref1(n, [&](double x) { return std::pow(x, e); }), "pow", 1e-9, 1e-12);
    expect(td::to_complex(a), ref1(a, [](double x) { return std::complex<double>(x, 0); }), "to_complex");
    expect(td::to_double(a), ref1(a, [](double x) { return x; }), "to_double");
    for (int p = 0; p < 4; ++p) with_policy(p, [&](auto pol) {
        expect(td::abs(pol, a), ref1(a, D([](double x) { return std::fabs(x); })), "abs-policy");
        expect(td::pow(pol, n, e), ref1(n, [&](double x) { return std::pow(x, e); }), "pow-policy", 1e-9, 1e-12);
        expect(td::to_complex(pol, a), ref1(a, [](double x) { return std::complex<double>(x, 0); }), "to_complex-policy");
        expect(td::to_double(pol, a), ref1(a, [](double x) { return x; }), "to_double-policy");
    });
    auto str = td::to_string(a);
    for (std::size_t i = 0; i < a.getImageData().size(); ++i) require(str.getImageData()[i] == std::to_string(a.getImageData()[i]), "to_string", "element ", i);
    pa.check();
    event("function_values", a.getImageData().size());
}
VP_SECTION("functions.int", 200, 3000)
{
    const Sz s = dims(r);
    c.describe("functions int/u8/float ", shows(s)); c.trivial = product(s) < 2;
    auto a = rnd_image<int>(r, s); auto b = rnd_image<std::uint8_t>(r, s); auto f = rnd_image<float>(r, s);
    expect(td::abs(a), ref1(a, [](int x) { return x < 0 ? -x : x; }), "abs-int");
    expect(td::abs(b), ref1(b, [](std::uint8_t x) { return x; }), "abs-u8");
    expect(td::abs(f), ref1(f, [](float x) { return std::fabs(x); }), "abs-float");
    expect(td::to_double(a), ref1(a, [](int x) { return (double)x; }), "to_double-int");
    expect(td::to_double(b), ref1(b, [](std::uint8_t x) { return (double)x; }), "to_double-u8");
    expect(td::pow(b, 2), ref1(b, [](std::uint8_t x) { return (double)x * x; }), "pow-u8", 1e-12, 1e-9);
    for (int p = 0; p < 4; ++p) with_policy(p, [&](auto pol) {
        expect(td::abs(pol, a), ref1(a, [](int x) { return x < 0 ? -x : x; }), "abs-int");
        expect(td::to_double(pol, b), ref1(b, [](std::uint8_t x) { return (double)x; }), "to_double-u8");
    });
    event("function_values", a.getImageData().size());
}
VP_SECTION("complex", 200, 3000)
{
    const Sz s = dims(r);
    using C = std::complex<double>;
    c.describe("complex ", shows(s)); c.trivial = product(s) < 2;
    auto a = shaped<C>(r, s, [&] { return C(r.real(0.2, 1.3), r.real(0.1, 1)); });
    auto b = shaped<C>(r, s, [&] { return C(r.real(-3, 3), r.real(-3, 3)); });
    const C t(r.real(-2, 2), r.real(-2, 2)); const double d = r.real(-2, 2);
    expect(td::multiplies(b, t), ref1(b, [&](C x) { return C(x.real() * t.real() - x.imag() * t.imag(), x.real() * t.imag() + x.imag() * t.real()); }), "complex-multiplies", 1e-9, 1e-9);
    expect(td::multiplies(b, d), ref1(b, [&](C x) { return C(x.real() * d, x.imag() * d); }), "complex-multiplies", 1e-9, 1e-9);
    auto q = rnd_image<double>(r, s);
    expect(td::multiplies(q, t), ref1(q, [&](double x) { return C(x * t.real(), x * t.imag()); }), "complex-multiplies", 1e-9, 1e-9);
    expect(td::add(a, b), [&] { auto o = snap(a); const auto B = snap(b); for (std::size_t i = 0; i < o.d.size(); ++i) o.d[i] = C(o.d[i].real() + B.d[i].real(), o.d[i].imag() + B.d[i].imag()); return o; }(), "complex-add", 1e-9, 1e-9);
    expect(td::sin(a), ref1(a, [](C x) { return C(std::sin(x.real()) * std::cosh(x.imag()), std::cos(x.real()) * std::sinh(x.imag())); }), "complex-sin", 1e-9, 1e-9);
    expect(td::cos(a), ref1(a, [](C x) { return C(std::cos(x.real()) * std::cosh(x.imag()), -std::sin(x.real()) * std::sinh(x.imag())); }), "complex-cos", 1e-9, 1e-9);
    event("function_values", a.getImageData().size());
}
