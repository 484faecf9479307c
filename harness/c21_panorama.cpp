// C21: stitching from the pictures alone.
#define VP_NO_MAIN
#include "img.hpp"
#include "image_operations.h"
using namespace vp;
namespace la = TinyDIP::linalg;
namespace
{
    struct Quiet
    {
        std::ostringstream sink; std::streambuf *o, *e;
        Quiet() : o(std::cout.rdbuf(sink.rdbuf())), e(std::cerr.rdbuf(sink.rdbuf())) {}
        ~Quiet() { std::cout.rdbuf(o); std::cerr.rdbuf(e); }
    };
    Image<RGB> scene(Rng& r, std::size_t W, std::size_t H)
    {
        Image<RGB> im(W, H);
        struct B { double x, y, s; int c; };
        std::vector<B> b(W * H / 120);
        for (auto& q : b) q = { r.real(0, (double)W), r.real(0, (double)H), r.real(1.5, 5.5), (int)r.range(0, 2) };
        for (std::size_t y = 0; y < H; ++y) for (std::size_t x = 0; x < W; ++x)
        {
            double v[3] = { 60, 60, 60 };
            for (auto& q : b)
            {
                const double d = (x - q.x) * (x - q.x) + (y - q.y) * (y - q.y);
                if (d > 30 * q.s * q.s) continue;
                const double e = 120 * std::exp(-d / (2 * q.s * q.s));
                v[q.c] += e; v[(q.c + 1) % 3] += e / 2;
            }
            for (int k = 0; k < 3; ++k) im.at(x, y).channels[k] = (std::uint8_t)std::min(255.0, v[k]);
        }
        return im;
    }
    Image<RGB> part(const Image<RGB>& im, std::size_t x0, std::size_t w)
    {
        Image<RGB> o(w, im.getHeight());
        for (std::size_t y = 0; y < im.getHeight(); ++y) for (std::size_t x = 0; x < w; ++x) o.at(x, y) = im.at(x0 + x, y);
        return o;
    }
}
// two views of one textured scene are aligned; the estimator draws at random, so one of three attempts has to succeed
VP_SECTION("panorama", 8, 120)
{
    const std::size_t W = r.size(140, 190), H = r.size(80, 130), w = W * 3 / 4, off = W - w;
    c.describe("scene ", W, "x", H);
    const auto big = scene(r, W, H);
    const auto a = part(big, 0, w), b = part(big, off, w);
    Pure<RGB> pa(a, "panorama"), pb(b, "panorama");
    Quiet q;
    double best = 1e9;
    std::size_t bw = 0, bh = 0;
    const bool whole = r.chance(0.5);
    for (int i = 0; i < 3 && best > 6; ++i)
    {
        if (whole)
        {
            const auto s = r.chance(0.5) ? TinyDIP::imstitch(a, b) : TinyDIP::stitch_sequential(std::vector<Image<RGB>>{ a, b });
            bw = s.getDimensionality() == 2 ? s.getWidth() : 0; bh = s.getDimensionality() == 2 ? s.getHeight() : 0;
            best = std::max(std::fabs((double)bw - (double)W), std::fabs((double)bh - (double)H));
            continue;
        }
        const auto M = TinyDIP::find_stitch_homography<double>(a, b, TinyDIP::SiftParams<double>{}, 0.7, 2000, 2.0);
        if (M.empty()) continue;
        double e = 0;
        for (double x : { (double)off, (double)w - 1 }) for (double y : { 0.0, (double)H - 1 })
        {
            const double d = M.at(2, 0) * x + M.at(2, 1) * y + M.at(2, 2);
            e = std::max(e, std::hypot((M.at(0, 0) * x + M.at(0, 1) * y + M.at(0, 2)) / d - (x - (double)off), (M.at(1, 0) * x + M.at(1, 1) * y + M.at(1, 2)) / d - y));
        }
        if (std::isfinite(e)) best = std::min(best, e);
    }
    if (whole) { require(best <= 6, "panorama/canvas", "two views of a ", W, "x", H, " scene were stitched to ", bw, "x", bh); event("panoramas"); }
    else { require(best <= 6, "panorama/homography", "two views of one scene are aligned ", best, " pixels off"); event("views_aligned"); }
    pa.check(); pb.check();
}
VP_SECTION("no_texture", 6, 40)
{
    const std::size_t W = r.size(24, 60), H = r.size(24, 60);
    c.describe("blank ", W, "x", H);
    Image<RGB> a(W, H), b(W, H);
    const auto g = (std::uint8_t)r.range(0, 255);
    for (auto* i : { &a, &b }) for (auto& p : i->getImageData()) for (auto& ch : p.channels) ch = g;
    Pure<RGB> pa(a, "no_texture");
    Quiet q;
    require(TinyDIP::imstitch(a, b).count() == 0, "panorama/blank", "two blank images were stitched");
    const auto s = TinyDIP::stitch_sequential(std::vector<Image<RGB>>{ a, b, a });
    expect_same(s, a, "panorama/sequence-first");
    expect_same(TinyDIP::stitch_sequential(std::vector<Image<RGB>>{ b }), b, "panorama/sequence-single");
    require(TinyDIP::stitch_sequential(std::vector<Image<RGB>>{}).count() == 0, "panorama/sequence-empty", "no images were stitched to something");
    event("views_without_texture");
    pa.check();
}
