#define VP_NO_MAIN
#include "img.hpp"
#include "image_operations.h"
using namespace vp;
namespace td = TinyDIP;
template<class T> static void rt(Rng& r, Case& c, const char* n)
{
    const Sz s = rnd_size2(r, 8);
    c.describe("dct2 ", n, " ", shows(s)); c.trivial = product(s) == 1;
    const auto a = rnd_image<T>(r, s);
    const auto f = td::dct2(a);
    const auto g = snap(td::idct2(f)); const auto A = snap(a);
    require(g.size == A.size, "dct2-channels", "shape");
    for (int ch = 0; ch < 3; ++ch)
    {
        Image<double> p(s); for (std::size_t i = 0; i < A.d.size(); ++i) p.getImageData()[i] = A.d[i].channels[ch];
        const auto q = snap(td::dct2(p)); const auto F = snap(f);
        for (std::size_t i = 0; i < A.d.size(); ++i)
        {
            require(close((double)F.d[i].channels[ch], q.d[i], 1e-8, 1e-7), "dct2-channels", "channel ", ch, " differs from the transform of that plane alone");
            require(close((double)g.d[i].channels[ch], (double)A.d[i].channels[ch], 1e-8, 1e-6), "dct2-channels-roundtrip", "channel ", ch, " element ", i);
        }
    }
    event("channel_roundtrips", 3);
}
VP_SECTION("dct2.rgb", 60, 800) { rt<RGB>(r, c, "RGB"); }
VP_SECTION("dct2.hsv", 60, 800) { rt<HSV>(r, c, "HSV"); }
