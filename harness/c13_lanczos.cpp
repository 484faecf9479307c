#define VP_NO_MAIN
#include "c13_resample.hpp"
using namespace vp;
template<class T> void lanczos(Rng& r, Case& c, const char* tn, ld rel)
{
    const Sz s = rnd_size2(r, 14), n = r.chance(0.15) ? s : rnd_size2(r, 22);
    const int a = (int)r.range(1, 5);
    c.describe(tn, " ", shows(s), " -> ", shows(n), " a=", a);
    c.trivial = product(s) == 1;
    const auto im = rnd_image<T>(r, s);
    Pure<T> pure(im, "lanczos");
    const auto got = TinyDIP::lanczos_resample(im, n[0], n[1], a);
    const auto gp = TinyDIP::lanczos_resample(std::execution::par, im, n[0], n[1], a);
    const auto gs = TinyDIP::lanczos_resample(std::execution::seq, im, n[0], n[1], a);
    require(got.getWidth() == n[0] && got.getHeight() == n[1] && got.count() == product(n), "lanczos/shape", "shape ", got.getWidth(), "x", got.getHeight());
    require(gp.getWidth() == n[0] && gp.getHeight() == n[1] && gs.getWidth() == n[0] && gs.getHeight() == n[1], "lanczos/shape", "a policy overload has another shape");
    const ld tol = rel * largest(im);
    for (std::size_t y = 0; y < n[1]; ++y) for (std::size_t x = 0; x < n[0]; ++x)
    {
        const auto w = ref_lanczos(im, x, y, n[0], n[1], a);
        near_value((T)got.getImageData()[y * n[0] + x], w, tol, "lanczos/value", cat("pixel (", x, ",", y, ")"));
        near_value((T)gp.getImageData()[y * n[0] + x], w, tol, "lanczos-par/value", cat("pixel (", x, ",", y, ")"));
        near_value((T)gs.getImageData()[y * n[0] + x], w, tol, "lanczos-seq/value", cat("pixel (", x, ",", y, ")"));
    }
    pure.check();
    event("lanczos_pixels", product(n));
    if (n == s) event("lanczos_same_size");
    const Sz cs{ 2, 2, 2 };
    const Image<T> cube(cs);
    require(throws([&] { TinyDIP::lanczos_resample(cube, n[0], n[1], a); }), "lanczos/dims", "3-D image accepted");
}
VP_SECTION("lanczos_u8", 200, 5000) { lanczos<std::uint8_t>(r, c, "u8", 1e-8L); }
VP_SECTION("lanczos_double", 200, 5000) { lanczos<double>(r, c, "double", 1e-9L); }
VP_SECTION("lanczos_float", 200, 5000) { lanczos<float>(r, c, "float", 2e-3L); }
