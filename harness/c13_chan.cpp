#define VP_NO_MAIN
#include "c13_resample.hpp"
using namespace vp;
template<class T, class P> void channels(Rng& r, Case& c, const char* tn)
{
    const Sz s = rnd_size2(r, 9), n = rnd_size2(r, 12);
    const int a = (int)r.range(2, 3);
    c.describe(tn, " ", shows(s), " -> ", shows(n));
    const auto im = rnd_image<T>(r, s);
    Pure<T> pure(im, "channels");
    const auto b = TinyDIP::copyResizeBicubic<double>(im, n[0], n[1]);
    const auto l = TinyDIP::lanczos_resample(im, n[0], n[1], a);
    const auto lp = TinyDIP::lanczos_resample(std::execution::par, im, n[0], n[1], a);
    for (const auto* q : { &b, &l, &lp }) require(q->getWidth() == n[0] && q->getHeight() == n[1], "channels/shape", "shape ", q->getWidth(), "x", q->getHeight());
    for (std::size_t k = 0; k < chan<T>::n; ++k)
    {
        Image<P> p(s);
        for (std::size_t i = 0; i < product(s); ++i) p.getImageData()[i] = im.getImageData()[i].channels[k];
        const ld tol = 1e-8L * largest(p);
        for (std::size_t y = 0; y < n[1]; ++y) for (std::size_t x = 0; x < n[0]; ++x)
        {
            const std::size_t i = y * n[0] + x;
            const auto where = cat("channel ", k, " pixel (", x, ",", y, ")");
            near_value((P)b.getImageData()[i].channels[k], ref_bicubic(p, x, y, n[0], n[1]), tol, "channels/bicubic", where);
            const auto w = ref_lanczos(p, x, y, n[0], n[1], a);
            near_value((P)l.getImageData()[i].channels[k], w, tol, "channels/lanczos", where);
            near_value((P)lp.getImageData()[i].channels[k], w, tol, "channels/lanczos-par", where);
        }
    }
    pure.check();
    event("resampled_channels", chan<T>::n * 3);
}
VP_SECTION("channels_rgb", 200, 4000) { channels<RGB, std::uint8_t>(r, c, "RGB"); }
VP_SECTION("channels_hsv", 100, 3000) { channels<HSV, double>(r, c, "HSV"); }
