// C17: per-channel reductions and distances.
#define VP_NO_MAIN
#include "img.hpp"
#include "image_operations.h"
using namespace vp;
namespace td = TinyDIP;
using ld = long double;
template<class T> void channels(Rng& r, Case& c, const char* tn, bool named)
{
    const Sz s = rnd_size2(r, 7);
    c.describe("channels ", tn, " ", shows(s));
    const auto x = rnd_image<T>(r, s), y = rnd_image<T>(r, s);
    Pure<T> px(x, "channel-reduce"), py(y, "channel-reduce");
    const auto lo = td::min(x), hi = td::max(x);
    const auto eu = td::euclidean_distance(x, y);
    const auto eup = td::euclidean_distance(std::execution::par, x, y);
    require(lo.size() == chan<T>::n && hi.size() == chan<T>::n, "channel-min/size", "got ", lo.size(), " and ", hi.size(), " values");
    std::vector<double> man(chan<T>::n, -1);
    if constexpr (std::is_same_v<T, RGB> || std::is_same_v<T, RGB_DOUBLE> || std::is_same_v<T, HSV>)
    {
        const auto m = td::manhattan_distance(x, y);
        require(m.size() == 3, "channel-manhattan/size", m.size(), " values");
        for (std::size_t k = 0; k < 3; ++k) man[k] = (double)m[k];
    }
    for (std::size_t k = 0; k < chan<T>::n; ++k)
    {
        ld l = 1e300L, h = -1e300L, m = 0, q = 0;
        for (std::size_t i = 0; i < product(s); ++i)
        {
            const ld a = (ld)x.getImageData()[i].channels[k], b = (ld)y.getImageData()[i].channels[k];
            l = std::min(l, a); h = std::max(h, a); m += std::fabs((double)(a - b)); q += (a - b) * (a - b);
        }
        require((ld)lo[k] == l, "channel-min", "channel ", k, " got ", (double)lo[k], " want ", (double)l);
        require((ld)hi[k] == h, "channel-max", "channel ", k, " got ", (double)hi[k], " want ", (double)h);
        const double e = (double)std::sqrt(q);
        require(close((double)eu.channels[k], e, 1e-9, 1e-9), "channel-euclidean", "channel ", k, " got ", (double)eu.channels[k], " want ", e);
        require(close((double)eup.channels[k], e, 1e-9, 1e-9), "channel-euclidean-par", "channel ", k, " got ", (double)eup.channels[k], " want ", e);
        if (named) require(close(man[k], (double)m, 1e-9, 1e-9), "channel-manhattan", "channel ", k, " got ", man[k], " want ", (double)m);
    }
    const Sz s2 = { s[0] + 1, s[1] };
    const auto z = rnd_image<T>(r, s2);
    require(throws([&] { td::euclidean_distance(x, z); }), "channel-euclidean/size", "images of different sizes accepted");
    px.check(); py.check();
    event("channel_reductions", chan<T>::n);
}
VP_SECTION("chan_rgb", 150, 3000) { channels<RGB>(r, c, "RGB", true); }
VP_SECTION("chan_rgbd", 80, 3000) { channels<RGB_DOUBLE>(r, c, "RGB_DOUBLE", true); }
VP_SECTION("chan_hsv", 80, 3000) { channels<HSV>(r, c, "HSV", true); }
VP_SECTION("chan_mc4", 80, 3000) { channels<MultiChannel<double, 4>>(r, c, "4 channels", false); }
