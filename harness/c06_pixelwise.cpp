// Pixel-wise arithmetic against per-element scalar reference computations.
#include "img.hpp"
#include "image_operations.h"
using namespace vp;
namespace td = TinyDIP;

static Sz dims(Rng& r)
{
    if (r.chance(0.25)) { const std::size_t n = r.chance(0.5) ? 1 : 3; Sz s; for (std::size_t i = 0; i < n; ++i) s.push_back(rnd_extent(r, n == 1 ? 40 : 6)); return s; }
    return rnd_size2(r, 20);
}
template<class T, class F> auto ref1(const Image<T>& a, F f)
{
    const auto ra = snap(a);
    Ref<decltype(f(ra.d[0]))> o(ra.size);
    for (std::size_t i = 0; i < ra.d.size(); ++i) o.d[i] = f(ra.d[i]);
    return o;
}
template<class T, class U, class F> auto ref2(const Image<T>& a, const Image<U>& b, F f)
{
    const auto ra = snap(a); const auto rb = snap(b);
    Ref<decltype(f(ra.d[0], rb.d[0]))> o(ra.size);
    for (std::size_t i = 0; i < ra.d.size(); ++i) o.d[i] = f(ra.d[i], rb.d[i]);
    return o;
}
static Sz other(Rng& r, Sz s)
{
    Sz t = s;
    switch (r.range(0, 3))
    {
    case 0: t[0] += 1; break;
    case 1: if (t[0] > 1) t[0] -= 1; else t[0] += 2; break;
    case 2: if (s.size() > 1 && s[0] != s[1]) std::swap(t[0], t[1]); else t.back() += 1; break;
    default: t.back() += 1; break;
    }
    return t;
}
template<class F> void rejects(const char* op, F&& f)
{
    require(throws(f), cat("size-mismatch:", op), op, " accepted images of different sizes");
    event("mismatch_rejections");
}

template<class T> void binary(Rng& r, Case& c, const char* tn)
{
    const Sz s = dims(r);
    c.describe("binary ", tn, " ", shows(s)); c.trivial = product(s) < 2;
    auto a = rnd_image<T>(r, s), b = rnd_image<T>(r, s), d = rnd_image<T>(r, s);
    if constexpr (std::is_integral_v<T>) for (auto& x : b.getImageData()) if (x == 0) x = 3;
    Pure<T> pa(a, "arith"), pb(b, "arith"), pd(d, "arith");
    expect(td::add(a), snap(a), "add1");
    expect(td::add(a, b), ref2(a, b, [](T x, T y) { return T(x + y); }), "add2", 1e-12, 1e-9);
    {
        auto w = ref2(a, b, [](T x, T y) { return T(x + y); });
        const auto rd = snap(d);
        for (std::size_t i = 0; i < w.d.size(); ++i) w.d[i] = T(w.d[i] + rd.d[i]);
        expect(td::add(a, b, d), w, "add3", 1e-12, 1e-9);
    }
    expect(td::subtract(a, b), ref2(a, b, [](T x, T y) { return T(x - y); }), "subtract", 1e-12, 1e-9);
    expect(td::pixelwise_multiplies(a, b), ref2(a, b, [](T x, T y) { return x * y; }), "multiplies2", 1e-12, 1e-9);
    expect(td::divides(a, b), ref2(a, b, [](T x, T y) { return T(x / y); }), "divides", 1e-12, 1e-9);
    if constexpr (std::is_integral_v<T>) expect(td::modulus(a, b), ref2(a, b, [](T x, T y) { return T(x % y); }), "modulus");
    {
        T k = rnd_value<T>(r); if (k == T(0)) k = T(2);
        expect(td::divides(a, k), ref1(a, [&](T x) { return T(x / k); }), "divides-scalar", 1e-12, 1e-9);
        const double t = r.real(-3, 3);
        expect(td::multiplies(a, t), ref1(a, [&](T x) { return x * t; }), "multiplies-scalar", 1e-12, 1e-9);
        expect(td::multiplies(t, a), ref1(a, [&](T x) { return x * t; }), "multiplies-scalar", 1e-12, 1e-9);
        const int ti = (int)r.range(-9, 9);
        expect(td::multiplies(a, ti), ref1(a, [&](T x) { return x * ti; }), "multiplies-scalar", 1e-12, 1e-9);
    }
    expect(td::negate(a), ref1(a, [](T x) { return T(-x); }), "negate");
    for (int p = 0; p < 4; ++p) with_policy(p, [&](auto pol) { expect(td::negate(pol, a), ref1(a, [](T x) { return T(-x); }), "negate-policy"); });
    expect(td::difference(a, b), ref2(a, b, [](T x, T y) { return T(x > y ? x - y : y - x); }), "difference", 1e-12, 1e-9);
    for (int p = 0; p < 4; ++p) with_policy(p, [&](auto pol) {
        auto v = td::difference(pol, a.getImageData(), b.getImageData());
        const auto w = ref2(a, b, [](T x, T y) { return T(x > y ? x - y : y - x); });
        require(v.size() == w.d.size(), "difference-range", "length");
        for (std::size_t i = 0; i < v.size(); ++i) require(same_value(v[i], w.d[i], 1e-12, 1e-9), "difference-range", "element ", i);
    });
    // vectors of images
    {
        std::vector<Image<T>> va{ a, b }, vb{ d, b };
        auto s1 = td::add(va, vb); auto s2 = td::subtract(va, vb);
        require(s1.size() == 2 && s2.size() == 2, "vector", "length");
        expect(s1[0], ref2(a, d, [](T x, T y) { return T(x + y); }), "vector-add", 1e-12, 1e-9);
        expect(s1[1], ref2(b, b, [](T x, T y) { return T(x + y); }), "vector-add", 1e-12, 1e-9);
        expect(s2[0], ref2(a, d, [](T x, T y) { return T(x - y); }), "vector-subtract", 1e-12, 1e-9);
        auto q = td::divides(std::vector<Image<T>>{ a, d }, std::vector<Image<T>>{ b, b });
        expect(q[1], ref2(d, b, [](T x, T y) { return T(x / y); }), "vector-divides", 1e-12, 1e-9);
        auto m = td::pixelwise_multiplies(va, vb);
        expect(m[0], ref2(a, d, [](T x, T y) { return x * y; }), "vector-multiplies", 1e-12, 1e-9);
        rejects("subtract(vector)", [&] { td::subtract(va, std::vector<Image<T>>{ a }); });
    }
    pa.check(); pb.check(); pd.check();
    // mismatched sizes
    const Sz t = other(r, s);
    const auto e = rnd_image<T>(r, t);
    rejects("add", [&] { td::add(a, e); });
    rejects("add", [&] { td::add(e, a); });
    rejects("subtract", [&] { td::subtract(a, e); });
    rejects("multiplies", [&] { td::pixelwise_multiplies(a, e); });
    rejects("multiplies", [&] { td::pixelwise_multiplies(e, a); });
    rejects("divides", [&] { td::divides(a, e); });
    if constexpr (std::is_integral_v<T>) rejects("modulus", [&] { td::modulus(a, e); });
    rejects("difference", [&] { td::difference(a, e); });
    if (a.getImageData().size() != e.getImageData().size())
        rejects("difference(range)", [&] { td::difference(std::execution::seq, a.getImageData(), e.getImageData()); });
    event("arith_elements", a.getImageData().size());
}
VP_SECTION("binary.double", 300, 6000) { binary<double>(r, c, "double"); }
VP_SECTION("binary.int", 300, 6000) { binary<int>(r, c, "int"); }

VP_SECTION("binary.mixed", 200, 4000)
{
    const Sz s = dims(r);
    c.describe("mixed ", shows(s)); c.trivial = product(s) < 2;
    auto a = rnd_image<std::uint8_t>(r, s); auto b = rnd_image<double>(r, s); auto k = rnd_image<int>(r, s);
    Pure<std::uint8_t> pa(a, "mixed"); Pure<double> pb(b, "mixed");
    expect(td::pixelwise_multiplies(a, b), ref2(a, b, [](std::uint8_t x, double y) { return x * y; }), "mixed-multiplies", 1e-12, 1e-9);
    auto w = ref2(a, b, [](std::uint8_t x, double y) { return x * y; });
    const auto rk = snap(k);
    for (std::size_t i = 0; i < w.d.size(); ++i) w.d[i] *= rk.d[i];
    expect(td::pixelwise_multiplies(a, b, k), w, "multiplies3", 1e-12, 1e-9);
    expect(td::pixelwise_transform([](std::uint8_t x, double y, int z) { return x - y * z; }, a, b, k),
        [&] { auto o = ref2(a, b, [](std::uint8_t, double) { return 0.0; }); const auto A = snap(a); const auto B = snap(k); const auto D = snap(b); for (std::size_t i = 0; i < o.d.size(); ++i) o.d[i] = A.d[i] - D.d[i] * B.d[i]; return o; }(), "transform3", 1e-12, 1e-9);
    expect(td::generate_complex_image(b, td::multiplies(b, 2.0)), ref1(b, [](double x) { return std::complex<double>(x, x * 2.0); }), "complex-image", 1e-12, 1e-9);
    const auto e = rnd_image<double>(r, other(r, s));
    rejects("generate_complex_image", [&] { td::generate_complex_image(b, e); });
    rejects("multiplies3", [&] { td::pixelwise_multiplies(a, b, e); });
    pa.check(); pb.check();
    event("arith_elements", a.getImageData().size());
}
VP_SECTION("threshold", 200, 3000)
{
    const Sz s = dims(r);
    c.describe("threshold ", shows(s)); c.trivial = product(s) < 2;
    auto a = rnd_image<std::uint8_t>(r, s); auto b = rnd_image<double>(r, s);
    Pure<std::uint8_t> pa(a, "threshold");
    const std::uint8_t t = r.chance(0.5) ? a.getImageData()[r.size(0, a.getImageData().size() - 1)] : rnd_scalar<std::uint8_t>(r);
    expect(td::apply_threshold_openmp(a, t), ref1(a, [&](std::uint8_t x) { return std::uint8_t(x > t ? 255 : 0); }), "threshold");
    const double u = r.chance(0.5) ? b.getImageData()[0] : r.real(0, 255);
    expect(td::apply_threshold_openmp(b, u), ref1(b, [&](double x) { return x > u ? std::numeric_limits<double>::max() : std::numeric_limits<double>::lowest(); }), "threshold");
    for (int p = 0; p < 4; ++p) with_policy(p, [&](auto pol) {
        expect(td::apply_each_pixel(pol, a, [](std::uint8_t x, int k) { return x * k + 1; }, 3), ref1(a, [](std::uint8_t x) { return x * 3 + 1; }), "apply_each_pixel");
        expect(td::apply_each_pixel(pol, b, [](double x) { return (float)x; }), ref1(b, [](double x) { return (float)x; }), "apply_each_pixel");
    });
    expect(td::apply_each_pixel_openmp(a, [](std::uint8_t x, int k) { return x * k + 1; }, 3), ref1(a, [](std::uint8_t x) { return x * 3 + 1; }), "apply_each_pixel");
    pa.check();
    event("arith_elements", a.getImageData().size());
}
VP_SECTION("replace", 200, 4000)
{
    const Sz s = dims(r);
    c.describe("replace ", shows(s)); c.trivial = product(s) < 2;
    auto a = Image<int>(s);
    for (auto& x : a.getImageData()) x = (int)r.range(0, 3);
    Pure<int> pa(a, "replace");
    const int from = (int)r.range(0, 4), to = (int)r.range(0, 9);
    const auto w = ref1(a, [&](int x) { return x == from ? to : x; });
    expect(td::replace(a, from, to), w, "replace");
    for (int p = 0; p < 4; ++p) with_policy(p, [&](auto pol) { expect(td::replace(pol, a, from, to), w, "replace"); });
    pa.check();
    auto g = rnd_image<RGB>(r, s); const RGB f = g.getImageData()[0], t = rnd_value<RGB>(r);
    expect(td::replace(g, f, t), ref1(g, [&](RGB x) { return x == f ? t : x; }), "replace");
    event("arith_elements", a.getImageData().size());
}
VP_SECTION("normalize", 200, 4000)
{
    const Sz s = dims(r);
    c.describe("normalize ", shows(s)); c.trivial = product(s) < 2;
    auto a = rnd_image<double>(r, s);
    double lo = 1e300, hi = -1e300;
    for (double x : a.getImageData()) { lo = std::min(lo, x); hi = std::max(hi, x); }
    if (!(hi - lo > 1e-6)) { c.trivial = true; return; }
    Pure<double> pa(a, "normalize");
    expect(td::normalize(a), ref1(a, [&](double x) { return (x - lo) / (hi - lo); }), "normalize", 1e-9, 1e-9);
    pa.check();
    event("arith_elements", a.getImageData().size());
}
VP_SECTION("transform_mismatch", 8, 8)
{
    // The generic transform itself: a smaller first image next to a larger second one (the direction that stays in bounds).
    c.describe("pixelwise_transform 2x2 with 3x2 #", r.next() % 4);
    Image<double> a(2, 2), b(3, 2);
    require(throws([&] { td::pixelwise_transform([](double x, double y) { return x + y; }, a, b); }), "size-mismatch:pixelwise_transform", "pixelwise_transform accepts images of different sizes");
}
VP_SECTION("large", 2, 20) { Big big; binary<double>(r, c, "double"); }
