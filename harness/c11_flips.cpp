// C11: transpose, flips and rotations move every pixel to exactly the right place.
#include "img.hpp"
#include "image_operations.h"
using namespace vp;

template<class T> Ref<T> ref_quarter(const Ref<T>& a)
{
    Ref<T> o({ a.h(), a.w() });
    for (std::size_t y = 0; y < a.h(); ++y) for (std::size_t x = 0; x < a.w(); ++x) o(a.h() - 1 - y, x) = a(x, y);
    return o;
}
template<class T> void movers(Rng& r, Case& c, const char* tn)
{
    const Sz s = r.chance(0.05) ? Sz{ r.size(60, 200), r.size(60, 200) } : rnd_size2(r, 30);
    c.describe(tn, " ", shows(s));
    c.trivial = product(s) == 1;
    const auto im = rnd_image<T>(r, s);
    Pure<T> pure(im, "moves");
    const auto a = snap(im);
    Ref<T> t({ s[1], s[0] }), fh(s), fv(s), fhv(s);
    for (std::size_t y = 0; y < s[1]; ++y) for (std::size_t x = 0; x < s[0]; ++x)
    {
        t(y, x) = a(x, y);
        fh(s[0] - 1 - x, y) = a(x, y);
        fv(x, s[1] - 1 - y) = a(x, y);
        fhv(s[0] - 1 - x, s[1] - 1 - y) = a(x, y);
    }
    expect(TinyDIP::transpose(im), t, "transpose");
    with_policy((int)r.range(0, 3), [&](auto&& p) { expect(TinyDIP::transpose(p, im), t, "transpose-policy"); });
    expect(TinyDIP::flip_horizontal(im), fh, "flip_horizontal");
    expect(TinyDIP::flip_vertical(im), fv, "flip_vertical");
    expect(TinyDIP::flip_horizontal_vertical(im), fhv, "flip_horizontal_vertical");
    expect(TinyDIP::transpose(TinyDIP::transpose(im)), a, "transpose-involution");
    pure.check();
    event("pixels_moved", product(s) * 5);
}
VP_SECTION("moves_u8", 800, 20000) { movers<std::uint8_t>(r, c, "u8"); }
VP_SECTION("moves_double", 800, 20000) { movers<double>(r, c, "double"); }
VP_SECTION("moves_rgb", 800, 20000) { movers<RGB>(r, c, "RGB"); }
VP_SECTION("moves_mc5", 300, 10000) { movers<MultiChannel<float, 5>>(r, c, "5xfloat"); }
VP_SECTION("dimension", 60, 600)
{
    Sz s = r.chance(0.5) ? Sz{ r.size(1, 4), r.size(1, 4), r.size(1, 4) } : Sz{ r.size(1, 9) };
    c.describe(shows(s));
    const auto im = rnd_image<double>(r, s);
    require(throws([&] { TinyDIP::transpose(im); }), "dim/transpose", "transpose accepted a ", s.size(), "-D image");
    require(throws([&] { TinyDIP::transpose(std::execution::par, im); }), "dim/transpose", "transpose accepted a ", s.size(), "-D image");
    require(throws([&] { TinyDIP::flip_horizontal(im); }), "dim/flip_horizontal", "accepted a ", s.size(), "-D image");
    require(throws([&] { TinyDIP::flip_vertical(im); }), "dim/flip_vertical", "accepted a ", s.size(), "-D image");
    require(throws([&] { TinyDIP::flip_horizontal_vertical(im); }), "dim/flip_hv", "accepted a ", s.size(), "-D image");
    require(throws([&] { TinyDIP::rotate_degree(im, 90.0); }), "dim/rotate", "accepted a ", s.size(), "-D image");
    require(throws([&] { TinyDIP::rotate_detail_shear_transformation_degree(im, 33.0); }), "dim/shear", "accepted a ", s.size(), "-D image");
    event("rejections", 7);
}
VP_SECTION("large", 2, 20) { Big big; movers<std::uint8_t>(r, c, "u8"); }
