// DCT and DFT: inversion and agreement with a long-double direct sum.
#include "img.hpp"
#include "image_operations.h"
using namespace vp;
namespace td = TinyDIP;
static const long double PI = 3.14159265358979323846264338327950288L;

static Ref<double> dct2_ref(const Ref<double>& a)
{
    Ref<double> o(a.size);
    const std::size_t W = a.w(), H = a.h();
    for (std::size_t v = 0; v < H; ++v) for (std::size_t u = 0; u < W; ++u)
    {
        long double s = 0;
        for (std::size_t y = 0; y < H; ++y) for (std::size_t x = 0; x < W; ++x)
            s += (long double)a(x, y) * std::cos(PI * (2 * x + 1) * u / (2.0L * W)) * std::cos(PI * (2 * y + 1) * v / (2.0L * H));
        long double k = 4.0L * std::sqrt(2.0L) / ((long double)W * H);
        if (u == 0) k /= std::sqrt(2.0L);
        if (v == 0) k /= std::sqrt(2.0L);
        o(u, v) = (double)(k * s);
    }
    return o;
}
VP_SECTION("dct2", 400, 6000)
{
    const Sz s = rnd_size2(r, 11);
    c.describe("dct2 ", shows(s)); c.trivial = product(s) == 1;
    const auto a = rnd_image<double>(r, s), b = rnd_image<double>(r, s);
    Pure<double> pa(a, "dct2");
    const auto f = td::dct2(a);
    expect(f, dct2_ref(snap(a)), "dct2-definition", 1e-8, 1e-7);
    expect(td::idct2(f), snap(a), "idct2-inverts-dct2", 1e-8, 1e-7);
    expect(td::dct2(td::idct2(b)), snap(b), "dct2-inverts-idct2", 1e-8, 1e-7);
    pa.check();
    event("dct2_coefficients", product(s));
}
VP_SECTION("dct2.int", 100, 1000)
{
    const Sz s = rnd_size2(r, 9);
    c.describe("dct2 u8 ", shows(s)); c.trivial = product(s) == 1;
    const auto a = rnd_image<std::uint8_t>(r, s);
    const auto f = td::dct2(a);
    const auto back = td::idct2(f);
    const auto A = snap(a);
    require(back.getImageData().size() == A.d.size(), "dct2-u8", "size");
    for (std::size_t i = 0; i < A.d.size(); ++i) require(close((double)back.getImageData()[i], (double)A.d[i], 1e-8, 1e-6), "dct2-u8-roundtrip", "element ", i, " got ", (double)back.getImageData()[i], " want ", +A.d[i]);
    event("dct2_coefficients", product(s));
}
VP_SECTION("dct2.complex", 60, 800)
{
    const Sz s = rnd_size2(r, 7);
    c.describe("dct2 complex ", shows(s)); c.trivial = product(s) == 1;
    const auto a = rnd_image<std::complex<double>>(r, s);
    expect(td::idct2(td::dct2(a)), snap(a), "dct2-complex-roundtrip", 1e-8, 1e-7);
    event("dct2_coefficients", product(s));
}
VP_SECTION("dct3", 150, 2500)
{
    const Sz s = rnd_size2(r, 5); const std::size_t n = rnd_extent(r, 5);
    c.describe("dct3 ", shows(s), " planes ", n); c.trivial = product(s) * n == 1;
    std::vector<Image<double>> v;
    for (std::size_t i = 0; i < n; ++i) v.push_back(rnd_image<double>(r, s));
    std::vector<Ref<double>> before; for (auto& p : v) before.push_back(snap(p));
    const auto f = td::dct3(v);
    require(f.size() == n, "dct3", "planes ", f.size());
    for (std::size_t w = 0; w < n; ++w)
    {
        Ref<double> o(s);
        for (std::size_t q = 0; q < s[1]; ++q) for (std::size_t p = 0; p < s[0]; ++p)
        {
            long double sum = 0;
            for (std::size_t z = 0; z < n; ++z) for (std::size_t y = 0; y < s[1]; ++y) for (std::size_t x = 0; x < s[0]; ++x)
                sum += (long double)before[z](x, y) * std::cos(PI * (2 * x + 1) * p / (2.0L * s[0])) * std::cos(PI * (2 * y + 1) * q / (2.0L * s[1])) * std::cos(PI * (2 * z + 1) * w / (2.0L * n));
            long double k = 8.0L / ((long double)s[0] * s[1] * n);
            for (auto i : { p, q, w }) if (i == 0) k /= std::sqrt(2.0L);
            o(p, q) = (double)(k * sum);
        }
        expect(f[w], o, "dct3-definition", 1e-8, 1e-7);
        with_policy((int)r.range(0, 1), [&](auto pol) { expect(td::dct3_one_plane(pol, v, w), o, "dct3-plane-policy", 1e-8, 1e-7); });
    }
    const auto g = td::idct3(f);
    require(g.size() == n, "idct3", "planes ", g.size());
    for (std::size_t i = 0; i < n; ++i) { expect(g[i], before[i], "idct3-inverts-dct3", 1e-8, 1e-7); expect(v[i], before[i], "dct3/input-modified"); }
    event("dct3_planes", n);
}
VP_SECTION("dft2", 300, 4000)
{
    const Sz s = rnd_size2(r, 9);
    c.describe("dft2 ", shows(s)); c.trivial = product(s) == 1;
    const auto a = rnd_image<double>(r, s);
    Pure<double> pa(a, "dft2");
    const auto A = snap(a);
    const auto f = td::dft2(a);
    Ref<std::complex<long double>> o(s);
    const long double k = 1 / std::sqrt((long double)product(s));
    long double energy = 0, fenergy = 0;
    for (std::size_t v = 0; v < s[1]; ++v) for (std::size_t u = 0; u < s[0]; ++u)
    {
        std::complex<long double> t = 0;
        for (std::size_t y = 0; y < s[1]; ++y) for (std::size_t x = 0; x < s[0]; ++x)
        {
            const long double ph = -2 * PI * ((long double)(u * x % s[0]) / s[0] + (long double)(v * y % s[1]) / s[1]);
            t += std::complex<long double>(std::cos(ph), std::sin(ph)) * (long double)A(x, y);
        }
        o(u, v) = t * k;
        fenergy += std::norm(f.at_without_boundary_check(u, v));
        energy += (long double)A(u, v) * A(u, v);
    }
    expect(f, o, "dft2-definition", 1e-9, 1e-8);
    require(close((double)energy, (double)fenergy, 1e-9, 1e-7), "dft2-parseval", "energy ", (double)energy, " vs ", (double)fenergy);
    const auto g = td::idft2(f);
    Ref<std::complex<long double>> back(s);
    for (std::size_t i = 0; i < A.d.size(); ++i) back.d[i] = A.d[i];
    expect(g, back, "idft2-inverts-dft2", 1e-9, 1e-8);
    pa.check();
    event("dft2_coefficients", product(s));
}
