// C16: Gaussian figures and Gaussian smoothing.
#include "c16_ref.hpp"
using namespace vp;

template<class T> void figures(Rng& r, Case& c, const char* tn, double tol)
{
    const Sz s = rnd_size2(r, 20);
    const std::size_t cx = r.size(0, s[0] + 2), cy = r.size(0, s[1] + 2);
    const T sx = (T)r.real(0.3, 6), sy = (T)r.real(0.3, 6), rho = (T)r.real(-0.9, 0.9), f = (T)r.real(0.1, 5);
    c.describe(tn, " ", shows(s), " centre ", cx, ",", cy, " sigma ", sx, ",", sy, " rho ", rho);
    auto g = [](ld d, ld sg) { return std::exp(-d * d / (2 * sg * sg)); };
    Ref<ld> one({ s[0], 1 }), oneN({ s[0], 1 }), two(s), twoN(s), ell(s), par(s);
    ld sum1 = 0, sum2 = 0;
    const TinyDIP::GaussianParameters2D<T> p{ (T)1, (T)r.real(-1, (double)s[0]), (T)r.real(-1, (double)s[1]), sx, sy, rho };
    const ld q = 1 - (ld)rho * rho, norm = (ld)f / (2 * std::numbers::pi_v<ld> * sx * sy * std::sqrt(q));
    auto ex = [&](ld x1, ld x2) { return norm * std::exp(-((ld)sy * sy * x1 * x1 - 2 * (ld)rho * sx * sy * x1 * x2 + (ld)sx * sx * x2 * x2) / (2 * (ld)sx * sx * (ld)sy * sy * q)); };
    for (std::size_t x = 0; x < s[0]; ++x) sum1 += one.d[x] = g((ld)x - (ld)cx, sx);
    for (std::size_t x = 0; x < s[0]; ++x) oneN.d[x] = one.d[x] / sum1;
    for (std::size_t y = 0; y < s[1]; ++y) for (std::size_t x = 0; x < s[0]; ++x)
    {
        sum2 += two(x, y) = g((ld)x - (ld)cx, sx) * g((ld)y - (ld)cy, sy);
        ell(x, y) = ex((ld)x - (ld)cx, (ld)y - (ld)cy);
        par(x, y) = ex((ld)x - (ld)p.x0, (ld)y - (ld)p.y0);
    }
    for (std::size_t i = 0; i < two.d.size(); ++i) twoN.d[i] = two.d[i] / sum2;
    const double rel = tol * 100, ab = tol;
    expect(TinyDIP::gaussianFigure1D(s[0], cx, sx), one, "figure1D", rel, ab);
    if (sum1 > 1e-6) expect(TinyDIP::gaussianFigure1D(s[0], cx, sx, true), oneN, "figure1D-normalised", rel, ab * 100);
    expect(TinyDIP::gaussianFigure2D(s[0], s[1], cx, cy, sx, sy), two, "figure2D", rel, ab);
    if (sum2 > 1e-6) expect(TinyDIP::gaussianFigure2D(s[0], s[1], cx, cy, sx, sy, true), twoN, "figure2D-normalised", rel, ab * 100);
    {
        Ref<ld> same(s);
        for (std::size_t y = 0; y < s[1]; ++y) for (std::size_t x = 0; x < s[0]; ++x) same(x, y) = g((ld)x - (ld)cx, sx) * g((ld)y - (ld)cy, sx);
        expect(TinyDIP::gaussianFigure2D(s[0], s[1], cx, cy, sx), same, "figure2D-isotropic", rel, ab);
    }
    expect(TinyDIP::gaussianFigure2D(s[0], s[1], cx, cy, (T)(sx * sx), (T)(sy * sy), rho, f), ell, "figure2D-elliptical", rel * 30, ab * 30);
    expect(TinyDIP::gaussianFigure2D(std::execution::par, s[0], s[1], cx, cy, (T)(sx * sx), (T)(sy * sy), rho, f), ell, "figure2D-elliptical-par", rel * 30, ab * 30);
    expect(TinyDIP::gaussianFigure2D(s[0], s[1], p, f), par, "figure2D-parameters", rel * 30, ab * 30);
    expect(TinyDIP::gaussianFigure2D(std::execution::par, s[0], s[1], p, f), par, "figure2D-parameters-par", rel * 30, ab * 30);
    const std::size_t zs = r.size(1, 5), cz = r.size(0, 5);
    const T sz = (T)r.real(0.3, 4);
    Ref<ld> three({ s[0], s[1], zs });
    for (std::size_t z = 0; z < zs; ++z) for (std::size_t i = 0; i < two.d.size(); ++i) three.d[z * two.d.size() + i] = two.d[i] * g((ld)z - (ld)cz, sz);
    expect(TinyDIP::gaussianFigure3D(s[0], s[1], zs, cx, cy, cz, sx, sy, sz), three, "figure3D", rel, ab);
    event("figure_values", two.d.size() * 4 + three.d.size());
}
VP_SECTION("figures_double", 800, 20000) { figures<double>(r, c, "double", 1e-13); }
VP_SECTION("figures_float", 400, 10000) { figures<float>(r, c, "float", 1e-5); }

template<class T> void smooth(Rng& r, Case& c, const char* tn, double tol)
{
    const int mode = (int)r.range(0, 2);
    const Sz s = { r.size(2, 14), r.size(2, 14) };
    const std::size_t f1 = (mode == 1 ? r.size(0, s[0] - 2) : r.size(0, 8)) / 2 * 2 + 1, f2 = (mode == 1 ? r.size(0, s[1] - 2) : r.size(0, 8)) / 2 * 2 + 1;
    const double s1 = r.real(0.4, 3), s2 = r.real(0.4, 3);
    c.describe(tn, " ", shows(s), " ", BCN[mode], " sigma ", s1, ",", s2, " size ", f1, ",", f2);
    const auto im = rnd_image<T>(r, s);
    const T v = rnd_value<T>(r);
    Pure<T> pure(im, "gauss");
    const auto a = snap(im);
    const auto want = ref_gauss<T>(a, s1, s2, f1, f2, mode, v);
    const std::string key = cat("gauss-", BCN[mode]);
    expect(TinyDIP::imgaussfilt(std::execution::seq, im, s1, s2, (int)f1, (int)f2, BC[mode], v), want, key, tol, tol * 1000);
    expect(TinyDIP::imgaussfilt(std::execution::par, im, s1, s2, (int)f1, (int)f2, BC[mode], v), want, key + "-par", tol, tol * 1000);
    const std::size_t f = std::min(f1, f2);
    expect(TinyDIP::imgaussfilt(im, s1, (int)f, BC[mode], v), ref_gauss<T>(a, s1, s1, f, f, mode, v), key + "-square", tol, tol * 1000);
    event("smoothed", product(s) * 3); event(key);
    const std::size_t fd = 2 * (std::size_t)std::ceil(2 * s1) + 1;
    if (mode != 1 || (fd < s[0] && fd < s[1]))
    {
        expect(TinyDIP::imgaussfilt(im, s1, 0, BC[mode], v), ref_gauss<T>(a, s1, s1, fd, fd, mode, v), key + "-default-size", tol, tol * 1000);
        event("default_sizes");
    }
    pure.check();
}
VP_SECTION("smooth_double", 700, 20000) { smooth<double>(r, c, "double", 1e-11); }
VP_SECTION("smooth_float", 200, 6000) { smooth<float>(r, c, "float", 2e-5); }

VP_SECTION("dog", 200, 5000)
{
    const Sz s = { r.size(16, 30), r.size(16, 30) };
    const double s1 = r.real(0.3, 3), s2 = r.real(0.3, 3);
    c.describe("DoG ", shows(s), " ", s1, " ", s2);
    const auto im = rnd_image<double>(r, s);
    Pure<double> pure(im, "dog");
    const auto a = snap(im);
    auto fs = [](double g) { return 2 * (std::size_t)std::ceil(2 * g) + 1; };
    auto w1 = ref_gauss<double>(a, s1, s1, fs(s1), fs(s1), 1, 0.0);
    const auto w2 = ref_gauss<double>(a, s2, s2, fs(s2), fs(s2), 1, 0.0);
    for (std::size_t i = 0; i < w1.d.size(); ++i) w1.d[i] -= w2.d[i];
    expect(TinyDIP::difference_of_gaussian(im, s1, s2), w1, "difference_of_gaussian", 1e-11, 1e-8);
    pure.check();
    event("dog_values", w1.d.size());
}
VP_SECTION("rotated", 80, 1500)
{
    const Sz s = { r.size(12, 20), r.size(12, 20) };
    const int mode = r.chance(0.5) ? 0 : 2;
    const std::size_t f1 = 2 * r.size(0, 2) + 1, f2 = 2 * r.size(0, 2) + 1;
    const double s1 = r.real(0.4, 2), s2 = r.real(0.4, 2), t = r.chance(0.3) ? 0.0 : r.real(-3, 3);
    c.describe("rotated ", shows(s), " by ", t, " ", BCN[mode]);
    const auto im = rnd_image<double>(r, s);
    Pure<double> pure(im, "gauss-rotated");
    const auto turned = TinyDIP::rotate_detail_shear_transformation(im, t);
    const auto want = ref_gauss<double>(snap(turned), s1, s2, f1, f2, mode, 0.0);
    Image<double> mid(want.size);
    for (std::size_t i = 0; i < want.d.size(); ++i) mid.getImageData()[i] = (double)want.d[i];
    auto back = TinyDIP::rotate_detail_shear_transformation(mid, -t);
    back = TinyDIP::subimage(back, s[0], s[1], back.getWidth() / 2, back.getHeight() / 2);
    expect_same(TinyDIP::imgaussfilt(std::execution::seq, im, s1, s2, t, f1, f2, BC[mode], 0.0), back, "gauss-rotated", 1e-9, 1e-7);
    require(throws([&] { TinyDIP::imgaussfilt(std::execution::seq, im, 0.0, s2, t, f1, f2, BC[mode], 0.0); }), "gauss-rotated/reject", "sigma 0 accepted");
    pure.check();
    event("rotated_filters");
}
