// C11: multi-channel rotation equals rotating every channel.
#define VP_NO_MAIN
#include "img.hpp"
#include "image_operations.h"
using namespace vp;
VP_SECTION("quarter_rgb", 200, 3000)
{
    const Sz s = rnd_size2(r, 12);
    const int k = (int)r.range(-4, 4);
    c.describe("RGB ", shows(s), " turns=", k);
    c.trivial = product(s) == 1;
    const auto im = rnd_image<RGB>(r, s);
    auto want = snap(im);
    for (int i = 0; i < ((k % 4) + 4) % 4; ++i)
    {
        Ref<RGB> o({ want.h(), want.w() });
        for (std::size_t y = 0; y < want.h(); ++y) for (std::size_t x = 0; x < want.w(); ++x) o(want.h() - 1 - y, x) = want(x, y);
        want = o;
    }
    expect(TinyDIP::rotate_degree(im, 90 * k), want, "rotate_degree-rgb");
    event("channel_turns");
}
VP_SECTION("angle_rgb", 200, 3000)
{
    const Sz s = rnd_size2(r, 10);
    const double rad = r.real(-7, 7);
    c.describe("RGB ", shows(s), " radians=", rad);
    const auto im = rnd_image<RGB>(r, s);
    const auto got = TinyDIP::rotate_detail_shear_transformation(im, rad);
    for (int k = 0; k < 3; ++k)
    {
        Image<std::uint8_t> plane(s);
        for (std::size_t i = 0; i < product(s); ++i) plane.getImageData()[i] = im.getImageData()[i].channels[k];
        const auto p = TinyDIP::rotate_detail_shear_transformation(plane, rad);
        require(p.getWidth() == got.getWidth() && p.getHeight() == got.getHeight(), "angle_rgb/shape", "channel ", k, " has another shape");
        for (std::size_t i = 0; i < p.count(); ++i)
            require(p.getImageData()[i] == got.getImageData()[i].channels[k], "angle_rgb/value", "element ", i, " channel ", k, ": ", (int)got.getImageData()[i].channels[k], " instead of ", (int)p.getImageData()[i]);
    }
    event("channel_angles");
}
