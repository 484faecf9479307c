// C12: padding and overlapping blocks.
#define VP_NO_MAIN
#include "img.hpp"
#include "image_operations.h"
using namespace vp;

template<class T> Ref<T> ref_pad(const Ref<T>& a, std::size_t ex, std::size_t ey, int mode, T v)
{
    Ref<T> o({ a.w() + 2 * ex, a.h() + 2 * ey }, v);
    auto map = [&](long long p, long long n) -> long long
    {
        if (p >= 0 && p < n) return p;
        if (mode == 0) return -1;
        if (mode == 1) return p < 0 ? -p : 2 * (n - 1) - p;
        return p < 0 ? 0 : n - 1;
    };
    for (std::size_t y = 0; y < o.h(); ++y) for (std::size_t x = 0; x < o.w(); ++x)
    {
        const long long sx = map((long long)x - (long long)ex, (long long)a.w()), sy = map((long long)y - (long long)ey, (long long)a.h());
        if (sx >= 0 && sy >= 0) o(x, y) = a((std::size_t)sx, (std::size_t)sy);
    }
    return o;
}
template<class T> void pad(Rng& r, Case& c, const char* tn)
{
    const Sz s = rnd_size2(r, 14);
    const int mode = (int)r.range(0, 2);
    const std::size_t ex = mode == 1 ? r.size(0, s[0] - 1) : r.size(0, 9), ey = mode == 1 ? r.size(0, s[1] - 1) : r.size(0, 9);
    const char* mn[] = { "constant", "mirror", "replicate" };
    c.describe(tn, " ", shows(s), " ", mn[mode], " ", ex, ",", ey);
    c.trivial = ex + ey == 0;
    const auto im = rnd_image<T>(r, s);
    const T v = rnd_value<T>(r);
    Pure<T> pure(im, "padding");
    const auto want = ref_pad(snap(im), ex, ey, mode, v);
    const TinyDIP::BoundaryCondition bc[] = { TinyDIP::BoundaryCondition::constant, TinyDIP::BoundaryCondition::mirror, TinyDIP::BoundaryCondition::replicate };
    const std::string key = cat("padding-", mn[mode]);
    switch (mode)
    {
    case 0: expect(TinyDIP::generate_constant_padding_image(im, ex, ey, v), want, key); break;
    case 1: expect(TinyDIP::generate_mirror_padding_image(im, ex, ey, v), want, key); break;
    default: expect(TinyDIP::generate_replicate_padding_image(im, ex, ey, v), want, key); break;
    }
    expect(TinyDIP::generate_padded_image(std::execution::seq, im, ex, ey, bc[mode], v), want, key + "-boundary");
    expect(TinyDIP::generate_padded_image(std::execution::par, im, ex, ey, bc[mode], v), want, key + "-boundary-par");
    event(key);
    if (mode == 1 && r.chance(0.5))
    {
        const std::size_t bx = s[0] + r.size(0, 3);
        require(throws([&] { TinyDIP::generate_mirror_padding_image(im, bx, ey, v); }), "padding-mirror/reject", "mirror padding by ", bx, " of an image ", s[0], " wide accepted");
        event("mirror_rejections");
    }
    // overlapping blocks of the padded image
    const std::size_t xs = r.size(1, std::min<std::size_t>(s[0], 4)), ys = r.size(1, std::min<std::size_t>(s[1], 4));
    const std::size_t bx = s[0] / xs, by = s[1] / ys;
    const auto blocks = TinyDIP::split_overlap(std::execution::seq, im, xs, ys, ex, ey, bc[mode], v);
    require(blocks.size() == ys, "split_overlap/rows", blocks.size(), " rows of blocks instead of ", ys);
    for (std::size_t j = 0; j < ys; ++j)
    {
        require(blocks[j].size() == xs, "split_overlap/columns", blocks[j].size(), " blocks instead of ", xs);
        for (std::size_t i = 0; i < xs; ++i)
        {
            Ref<T> w({ bx + 2 * ex, by + 2 * ey });
            for (std::size_t y = 0; y < w.h(); ++y) for (std::size_t x = 0; x < w.w(); ++x) w(x, y) = want(i * bx + x, j * by + y);
            expect(blocks[j][i], w, "split_overlap/block");
            event("overlap_blocks");
        }
    }
    pure.check();
}
VP_SECTION("padding_u8", 700, 20000) { pad<std::uint8_t>(r, c, "u8"); }
VP_SECTION("padding_rgb", 700, 20000) { pad<RGB>(r, c, "RGB"); }
VP_SECTION("padding_double", 700, 20000) { pad<double>(r, c, "double"); }
