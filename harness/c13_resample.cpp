// C13: resampling.
#include "c13_resample.hpp"
using namespace vp;

template<class T> void nearest(Rng& r, Case& c, const char* tn)
{
    const Sz s = rnd_size2(r, 24), n = r.chance(0.1) ? s : rnd_size2(r, 40);
    c.describe(tn, " ", shows(s), " -> ", shows(n));
    c.trivial = product(s) == 1 && product(n) == 1;
    const auto im = rnd_image<T>(r, s);
    Pure<T> pure(im, "nearest");
    const auto got = TinyDIP::resize_nearest_neighbor(im, n[0], n[1]);
    require(got.getWidth() == n[0] && got.getHeight() == n[1] && got.count() == product(n), "nearest/shape", "shape ", got.getWidth(), "x", got.getHeight());
    for (std::size_t y = 0; y < n[1]; ++y) for (std::size_t x = 0; x < n[0]; ++x)
    {
        const std::size_t sx = x * s[0] / n[0], sy = y * s[1] / n[1];
        // x*old/new may be an exact integer; rounding of the ratio may then fall just below it
        const std::size_t lx = (sx && x * s[0] % n[0] == 0) ? sx - 1 : sx, ly = (sy && y * s[1] % n[1] == 0) ? sy - 1 : sy;
        const T g = got.getImageData()[y * n[0] + x];
        bool ok = false;
        for (std::size_t b = ly; b <= sy; ++b) for (std::size_t a = lx; a <= sx; ++a) ok = ok || same_value(g, (T)im.getImageData()[b * s[0] + a], 0, 0);
        require(ok, "nearest/value", "pixel (", x, ",", y, ") is ", showv(g), ", not the source pixel (", sx, ",", sy, ")");
    }
    pure.check();
    event("nearest_pixels", product(n));
}
VP_SECTION("nearest_u8", 500, 10000) { nearest<std::uint8_t>(r, c, "u8"); }
VP_SECTION("nearest_rgb", 500, 10000) { nearest<RGB>(r, c, "RGB"); }
VP_SECTION("nearest_double", 300, 10000) { nearest<double>(r, c, "double"); }

template<class T, class F> void bicubic(Rng& r, Case& c, const char* tn, ld rel)
{
    const Sz s = rnd_size2(r, 18), n = r.chance(0.15) ? s : rnd_size2(r, 30);
    c.describe(tn, " ", shows(s), " -> ", shows(n));
    c.trivial = product(s) == 1;
    const auto im = rnd_image<T>(r, s);
    Pure<T> pure(im, "bicubic");
    const auto got = TinyDIP::copyResizeBicubic<F>(im, n[0], n[1]);
    require(got.getWidth() == n[0] && got.getHeight() == n[1] && got.count() == product(n), "bicubic/shape", "shape ", got.getWidth(), "x", got.getHeight());
    const ld tol = rel * largest(im);
    for (std::size_t y = 0; y < n[1]; ++y) for (std::size_t x = 0; x < n[0]; ++x)
        near_value((T)got.getImageData()[y * n[0] + x], ref_bicubic(im, x, y, n[0], n[1]), tol, "bicubic/value", cat("pixel (", x, ",", y, ")"));
    if (n == s) { expect_same(got, im, "bicubic/identity", std::is_same_v<F, float> && std::is_floating_point_v<T> ? 1e-5 : 0, 0); event("bicubic_identity"); }
    pure.check();
    event("bicubic_pixels", product(n));
}
VP_SECTION("bicubic_u8", 400, 8000) { bicubic<std::uint8_t, float>(r, c, "u8", 2e-4L); }
VP_SECTION("bicubic_double", 400, 8000) { bicubic<double, double>(r, c, "double", 1e-9L); }
VP_SECTION("bicubic_double_float", 200, 8000) { bicubic<double, float>(r, c, "double/float", 2e-4L); }
VP_SECTION("bicubic_int", 200, 8000) { bicubic<int, double>(r, c, "int", 1e-9L); }

template<class T> void bilinear(Rng& r, Case& c, const char* tn)
{
    const Sz s = rnd_size2(r, 14);
    const auto im = rnd_image<T>(r, s);
    Pure<T> pure(im, "interpolators");
    double x = r.real(-1.5, s[0] + 0.5), y = r.real(-1.5, s[1] + 0.5);
    if (r.chance(0.3)) x = (double)r.range(-1, (long long)s[0]);
    if (r.chance(0.3)) y = (double)r.range(-1, (long long)s[1]);
    if (r.chance(0.1)) x = s[0] - 1;
    if (r.chance(0.1)) y = s[1] - 1;
    c.describe(tn, " ", shows(s), " at ", x, ",", y);
    cld want = 0;
    const bool inside = x >= 0 && y >= 0 && x <= (double)s[0] - 1 && y <= (double)s[1] - 1;
    auto px = [&](long long i, long long j) { return wide((T)im.getImageData()[clampi(j, s[1]) * s[0] + clampi(i, s[0])]); };
    const long long ix = (long long)std::floor(x), iy = (long long)std::floor(y);
    if (inside)
    {
        const ld fx = x - ix, fy = y - iy;
        want = (px(ix, iy) * (1 - fx) + px(ix + 1, iy) * fx) * (1 - fy) + (px(ix, iy + 1) * (1 - fx) + px(ix + 1, iy + 1) * fx) * fy;
        event("bilinear_inside");
    }
    else event("bilinear_outside");
    const ld tol = 1e-11L * largest(im);
    near_value(TinyDIP::bilinear_interpolate(im, x, y), want, tol, "bilinear", "sample");
    if (x >= 1 && y >= 1 && x < (double)s[0] - 2 && y < (double)s[1] - 2)
    {
        auto k = [](ld d) { d = std::fabs(d); if (d <= 1) return 1.5L * d * d * d - 2.5L * d * d + 1; if (d < 2) return -0.5L * d * d * d + 2.5L * d * d - 4 * d + 2; return 0.0L; };
        want = 0;
        for (long long j = iy - 1; j <= iy + 2; ++j) for (long long i = ix - 1; i <= ix + 2; ++i) want += px(i, j) * (k(x - i) * k(y - j));
        event("bicubic_inside");
    }
    near_value((T)TinyDIP::default_bicubic_interpolator<T, double>{}(im, x, y), want, tol * 4, "bicubic_interpolator", "sample");
    pure.check();
}
VP_SECTION("interpolate_u8", 3000, 60000) { bilinear<std::uint8_t>(r, c, "u8"); }
VP_SECTION("interpolate_double", 3000, 60000) { bilinear<double>(r, c, "double"); }
VP_SECTION("interpolate_complex", 1000, 30000) { bilinear<std::complex<double>>(r, c, "complex"); }
VP_SECTION("interpolate_rgb", 600, 15000)
{
    const Sz s = rnd_size2(r, 10);
    const auto im = rnd_image<RGB>(r, s);
    const double x = r.real(-1, s[0] + 0.5), y = r.real(-1, s[1] + 0.5);
    c.describe("RGB ", shows(s), " at ", x, ",", y);
    const RGB b = TinyDIP::bilinear_interpolate(im, x, y);
    const RGB q = TinyDIP::default_bicubic_interpolator<RGB, double>{}(im, x, y);
    for (int k = 0; k < 3; ++k)
    {
        Image<std::uint8_t> p(s);
        for (std::size_t i = 0; i < product(s); ++i) p.getImageData()[i] = im.getImageData()[i].channels[k];
        require(b.channels[k] == TinyDIP::bilinear_interpolate(p, x, y), "bilinear/rgb", "channel ", k);
        require(q.channels[k] == TinyDIP::default_bicubic_interpolator<std::uint8_t, double>{}(p, x, y), "bicubic_interpolator/rgb", "channel ", k);
    }
    event("interpolated_channels", 6);
}
