// C14: colour conversion and channel planes.
#include "img.hpp"
#include "image_operations.h"
using namespace vp;

static HSV ref_hsv(const RGB& p)
{
    const int R = p.channels[0], G = p.channels[1], B = p.channels[2];
    const int mx = std::max({ R, G, B }), mn = std::min({ R, G, B });
    HSV o{};
    o.channels[2] = mx;
    o.channels[1] = mx == 0 ? 0.0 : 1.0 - (double)mn / mx;
    if (mx == mn) o.channels[0] = 0;
    else
    {
        const long double num = 0.5L * ((R - G) + (R - B)), den = std::sqrt((long double)((R - G) * (R - G) + (R - B) * (G - B)));
        const long double h = std::acos(std::clamp(num / den, -1.0L, 1.0L)) * 180.0L / 3.14159265358979323846264338L;
        o.channels[0] = (double)(B <= G ? h : 360.0L - h);
    }
    return o;
}
static void hsv_close(const HSV& g, const RGB& p, const char* key)
{
    const HSV w = ref_hsv(p);
    // hue near 0/180 is ill-conditioned in the arc cosine: 1e-5 degrees
    require(std::fabs(g.channels[0] - w.channels[0]) < 1e-5 && std::fabs(g.channels[1] - w.channels[1]) < 1e-12 && g.channels[2] == w.channels[2],
        key, showv(p), " gives ", showv(g), ", expected ", showv(w));
    require(g.channels[0] >= 0 && g.channels[0] < 360 && g.channels[1] >= 0 && g.channels[1] <= 1, key, showv(p), " leaves the HSV range: ", showv(g));
}
static void ref_rgb(const HSV& p, long double out[3])
{
    const long double H = p.channels[0], S = p.channels[1], V = p.channels[2];
    auto f = [&](int n) { long double k = std::fmod(n + H / 60.0L, 6.0L); return V - V * S * std::max(0.0L, std::min({ k, 4.0L - k, 1.0L })); };
    out[0] = f(5); out[1] = f(3); out[2] = f(1);
}
static void rgb_close(const RGB& g, const HSV& p, const char* key)
{
    long double w[3];
    ref_rgb(p, w);
    for (int k = 0; k < 3; ++k)
    {
        const long double lo = std::floor(std::max(0.0L, w[k] - 1e-6L)), hi = std::floor(w[k] + 1e-6L);
        require(g.channels[k] >= lo && g.channels[k] <= hi, key, showv(p), " channel ", k, " gives ", (int)g.channels[k], ", expected the truncation of ", (double)w[k]);
    }
}
// Every 24-bit colour in the thorough tier (65536 cases x 256 colours), a stratified sample in the quick one.
VP_SECTION("every_colour", 2500, 65536)
{
    const std::uint64_t id = r.next();
    const int R = (int)(id & 255), G = (int)((id >> 8) & 255);
    c.describe("R=", R, " G=", G, " every B");
    for (int B = 0; B < 256; ++B)
    {
        const RGB p{ { (std::uint8_t)R, (std::uint8_t)G, (std::uint8_t)B } };
        const HSV h = TinyDIP::rgb2hsv(p);
        hsv_close(h, p, "rgb2hsv");
        const RGB back = TinyDIP::hsv2rgb(h);
        rgb_close(back, h, "hsv2rgb");
        for (int k = 0; k < 3; ++k)
            require(std::abs((int)back.channels[k] - (int)p.channels[k]) <= 7, "colour-roundtrip", showv(p), " comes back as ", showv(back));
    }
    event("colours", 256);
}
VP_SECTION("hsv_anywhere", 6000, 200000)
{
    HSV p{ { r.real(0, 360), r.real(0, 1), r.real(0, 255) } };
    if (r.chance(0.3)) p.channels[0] = (double)(60 * r.range(0, 5));
    if (r.chance(0.2)) p.channels[1] = (double)r.range(0, 1);
    if (r.chance(0.2)) p.channels[2] = (double)r.range(0, 255);
    if (p.channels[0] >= 360) p.channels[0] = 0;
    c.describe(showv(p));
    rgb_close(TinyDIP::hsv2rgb(p), p, "hsv2rgb");
    const std::uint8_t g = (std::uint8_t)r.range(0, 255);
    rgb_close(TinyDIP::Grayscale2RGB(g), HSV{ { g * 360.0 / 256.0, 1.0, 255.0 } }, "Grayscale2RGB");
    event("hsv_points");
}
VP_SECTION("images", 400, 8000)
{
    Sz s = rnd_size2(r, 20);
    if (r.chance(0.2)) s.push_back(r.size(1, 4));
    c.describe("RGB ", shows(s));
    const auto im = rnd_image<RGB>(r, s);
    Pure<RGB> pure(im, "colour-image");
    auto check = [&](const Image<HSV>& h, const char* k)
    {
        require(snap(h).size == s, k, "shape changed");
        for (std::size_t i = 0; i < product(s); ++i) hsv_close(h.getImageData()[i], im.getImageData()[i], k);
    };
    const auto h = TinyDIP::rgb2hsv(im);
    check(h, "rgb2hsv-image");
    check(TinyDIP::rgb2hsv(std::execution::par, im), "rgb2hsv-image-par");
    check(TinyDIP::rgb2hsv(TinyDIP::im2double(im)), "rgb2hsv-double-image");
    Pure<HSV> pure2(h, "colour-image");
    auto check2 = [&](const Image<RGB>& b, const char* k)
    {
        require(snap(b).size == s, k, "shape changed");
        for (std::size_t i = 0; i < product(s); ++i) rgb_close(b.getImageData()[i], h.getImageData()[i], k);
    };
    check2(TinyDIP::hsv2rgb(h), "hsv2rgb-image");
    check2(TinyDIP::hsv2rgb(std::execution::par, h), "hsv2rgb-image-par");
    // lossless conversions
    const auto d = TinyDIP::im2double(im);
    require(snap(d).size == s, "im2double", "shape changed");
    for (std::size_t i = 0; i < product(s); ++i) for (int k = 0; k < 3; ++k)
        require(d.getImageData()[i].channels[k] == (double)im.getImageData()[i].channels[k], "im2double", "element ", i, " channel ", k);
    expect_same(TinyDIP::im2uint8(d), im, "im2uint8");
    const auto gray = rnd_image<std::uint8_t>(r, s);
    const auto gd = TinyDIP::im2double(gray);
    for (std::size_t i = 0; i < product(s); ++i) require(gd.getImageData()[i] == (double)gray.getImageData()[i], "im2double-gray", "element ", i);
    expect_same(TinyDIP::im2uint8(gd), gray, "im2uint8-gray");
    const auto hue = TinyDIP::Grayscale2RGB(gray);
    require(snap(hue).size == s, "Grayscale2RGB-image", "shape changed");
    for (std::size_t i = 0; i < product(s); ++i) rgb_close(hue.getImageData()[i], HSV{ { gray.getImageData()[i] * 360.0 / 256.0, 1.0, 255.0 } }, "Grayscale2RGB-image");
    pure.check(); pure2.check();
    event("images_converted");
}
template<class M, class P, class Make> void planes(Rng& r, Case& c, const char* tn, Make make)
{
    Sz s = rnd_size2(r, 20);
    if (r.chance(0.2)) s.push_back(r.size(1, 4));
    if (r.chance(0.1)) s = { r.size(1, 40) };
    c.describe(tn, " ", shows(s));
    const auto im = rnd_image<M>(r, s);
    Pure<M> pure(im, "planes");
    std::vector<Image<P>> ps;
    for (std::size_t k = 0; k < chan<M>::n; ++k)
    {
        Ref<P> want(s);
        for (std::size_t i = 0; i < product(s); ++i) want.d[i] = im.getImageData()[i].channels[k];
        ps.push_back(TinyDIP::getPlane(im, k));
        expect(ps.back(), want, "getPlane");
    }
    expect_same(make(ps), im, "planes-reassembled");
    if (chan<M>::n > 1)
    {
        auto bad = ps;
        Sz t = s;
        t[0] += 1;
        bad[r.size(0, chan<M>::n - 1)] = Image<P>(t);
        require(throws([&] { make(bad); }), "planes/mismatch", "planes of different sizes joined");
        event("mismatches");
    }
    pure.check();
    event("planes", chan<M>::n);
}
VP_SECTION("planes_rgb", 300, 8000)
{
    planes<RGB, std::uint8_t>(r, c, "RGB", [](auto& p) { return TinyDIP::constructRGB(p[0], p[1], p[2]); });
    const Sz s = rnd_size2(r, 6);
    const auto im = rnd_image<RGB>(r, s);
    expect_same(TinyDIP::getRplane(im), TinyDIP::getPlane(im, 0), "getRplane");
    expect_same(TinyDIP::getGplane(im), TinyDIP::getPlane(im, 1), "getGplane");
    expect_same(TinyDIP::getBplane(im), TinyDIP::getPlane(im, 2), "getBplane");
}
VP_SECTION("planes_rgbd", 300, 8000)
{
    planes<RGB_DOUBLE, double>(r, c, "RGB_DOUBLE", [](auto& p) { return TinyDIP::constructRGBDOUBLE(p[0], p[1], p[2]); });
    const Sz s = rnd_size2(r, 6);
    const auto im = rnd_image<RGB_DOUBLE>(r, s);
    expect_same(TinyDIP::getRplane(im), TinyDIP::getPlane(im, 0), "getRplane");
    expect_same(TinyDIP::getGplane(im), TinyDIP::getPlane(im, 1), "getGplane");
    expect_same(TinyDIP::getBplane(im), TinyDIP::getPlane(im, 2), "getBplane");
}
VP_SECTION("planes_hsv", 300, 8000)
{
    planes<HSV, double>(r, c, "HSV", [](auto& p) { return TinyDIP::constructHSV(p[0], p[1], p[2]); });
    const Sz s = rnd_size2(r, 6);
    const auto im = rnd_image<HSV>(r, s);
    expect_same(TinyDIP::getHplane(im), TinyDIP::getPlane(im, 0), "getHplane");
    expect_same(TinyDIP::getSplane(im), TinyDIP::getPlane(im, 1), "getSplane");
    expect_same(TinyDIP::getVplane(im), TinyDIP::getPlane(im, 2), "getVplane");
}
VP_SECTION("planes_mc1", 100, 3000) { planes<MultiChannel<int, 1>, int>(r, c, "1xint", [](auto& p) { return TinyDIP::constructMultiChannel(p[0]); }); }
VP_SECTION("planes_mc2", 100, 3000) { planes<MultiChannel<float, 2>, float>(r, c, "2xfloat", [](auto& p) { return TinyDIP::constructMultiChannel(p[0], p[1]); }); }
VP_SECTION("planes_mc3", 100, 3000) { planes<MultiChannel<double, 3>, double>(r, c, "3xdouble", [](auto& p) { return TinyDIP::constructMultiChannel(p[0], p[1], p[2]); }); }
VP_SECTION("planes_mc5", 100, 3000)
{
    planes<MultiChannel<double, 5>, double>(r, c, "5xdouble", [](auto& p) { return TinyDIP::constructMultiChannel(p[0], p[1], p[2], p[3], p[4]); });
    const Sz s = rnd_size2(r, 6);
    const auto im = rnd_image<MultiChannel<double, 5>>(r, s);
    require(throws([&] { TinyDIP::getPlane(im, 5 + r.size(0, 3)); }), "getPlane/range", "a plane beyond the last channel was returned");
    event("plane_rejections");
}
VP_SECTION("brighten", 400, 8000)
{
    const Sz s = rnd_size2(r, 8);
    const double times = r.chance(0.2) ? (double)r.range(0, 3) : r.real(0, 4);
    c.describe("brighten ", shows(s), " by ", times);
    const auto im = rnd_image<RGB>(r, s);
    Pure<RGB> pure(im, "brighten");
    auto hsv = TinyDIP::rgb2hsv(im);
    for (auto& p : hsv.getImageData()) p.channels[2] = std::clamp(p.channels[2] * times, 0.0, 255.0);
    expect_same(TinyDIP::increase_intensity(im, times), TinyDIP::hsv2rgb(hsv), "increase_intensity", 0, 1);
    pure.check();
    event("brightened");
}
