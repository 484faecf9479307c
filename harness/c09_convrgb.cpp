#define VP_NO_MAIN
#include "img.hpp"
#include "image_operations.h"
using namespace vp;
namespace td = TinyDIP;
template<class T> static void chans(Rng& r, Case& c, const char* tn)
{
    const Sz s = rnd_size2(r, 9), k = rnd_size2(r, 5);
    c.describe(tn, " image ", shows(s), " kernel ", shows(k)); c.trivial = product(s) == 1;
    const auto x = rnd_image<T>(r, s); Image<double> y(k);
    for (auto& v : y.getImageData()) v = r.real(-2, 2);
    const bool same = r.chance(0.5);
    const auto g = snap(td::conv2(x, y, same));
    const auto X = snap(x); const auto Y = snap(y);
    const Sz f{ s[0] + k[0] - 1, s[1] + k[1] - 1 };
    const Sz o = same ? s : f;
    require(g.size == o, "conv2-channels", "shape ", shows(g.size), " want ", shows(o));
    const std::size_t ox = same ? f[0] / 2 - s[0] / 2 : 0, oy = same ? f[1] / 2 - s[1] / 2 : 0;
    for (std::size_t py = 0; py < o[1]; ++py) for (std::size_t px = 0; px < o[0]; ++px) for (int ch = 0; ch < 3; ++ch)
    {
        double w = 0;
        for (std::size_t b = 0; b < k[1]; ++b) for (std::size_t a = 0; a < k[0]; ++a)
        {
            const std::ptrdiff_t ix = (std::ptrdiff_t)(px + ox) - (std::ptrdiff_t)a, iy = (std::ptrdiff_t)(py + oy) - (std::ptrdiff_t)b;
            if (ix < 0 || iy < 0 || ix >= (std::ptrdiff_t)s[0] || iy >= (std::ptrdiff_t)s[1]) continue;
            w += (double)X((std::size_t)ix, (std::size_t)iy).channels[ch] * Y(a, b);
        }
        require(close((double)g(px, py).channels[ch], w, 1e-9, 1e-6), "conv2-channels", "channel ", ch, " at (", px, ",", py, ") got ", g(px, py).channels[ch], " want ", w);
    }
    event("channel_outputs", g.d.size() * 3);
}
VP_SECTION("conv2.rgb", 200, 4000) { chans<RGB>(r, c, "RGB"); }
VP_SECTION("conv2.hsv", 200, 4000) { chans<HSV>(r, c, "HSV"); }
