// C12: subimage, split, concat, paste and padding copy exactly the right pixels.
#include "img.hpp"
#include "image_operations.h"
using namespace vp;

template<class T> void sub(Rng& r, Case& c, const char* tn)
{
    const int dims = r.chance(0.6) ? 2 : (int)r.range(1, 4);
    Sz s, ns, ce;
    for (int i = 0; i < dims; ++i)
    {
        s.push_back(rnd_extent(r, dims <= 2 ? 20 : 6));
        ns.push_back(r.size(1, s.back() + 4));
        ce.push_back(r.size(0, s.back() + 3));
    }
    c.describe(tn, " ", shows(s), " new=", shows(ns), " centre=", shows(ce));
    const auto im = rnd_image<T>(r, s);
    const T def = r.chance(0.3) ? T{} : rnd_value<T>(r);
    Pure<T> pure(im, "subimage");
    Ref<T> want(ns);
    std::size_t outside = 0;
    for (std::size_t i = 0; i < want.d.size(); ++i)
    {
        std::size_t k = i, lin = 0, stride = 1;
        bool in = true;
        for (int d = 0; d < dims; ++d)
        {
            const long long p = (long long)ce[d] - (long long)(ns[d] / 2) + (long long)(k % ns[d]);
            k /= ns[d];
            if (p < 0 || p >= (long long)s[d]) { in = false; break; }
            lin += (std::size_t)p * stride;
            stride *= s[d];
        }
        want.d[i] = in ? im.getImageData()[lin] : def;
        outside += !in;
    }
    with_policy((int)r.range(0, 3), [&](auto&& p) { expect(TinyDIP::subimage(p, im, ns, ce, def), want, "subimage-ranges"); });
    if (dims == 2)
    {
        expect(TinyDIP::subimage(im, ns[0], ns[1], ce[0], ce[1], def), want, "subimage");
        expect(TinyDIP::subimage(std::execution::par, im, ns[0], ns[1], ce[0], ce[1], def), want, "subimage-policy");
    }
    if (outside) event("windows_over_the_border"); else event("windows_inside");
    if (outside == want.d.size()) event("windows_fully_outside");
    Sz bad = ns;
    if (r.chance(0.5)) bad.push_back(1); else bad.pop_back();
    require(throws([&] { TinyDIP::subimage(std::execution::seq, im, bad, ce, def); }), "subimage/dims", "sizes of the wrong dimensionality accepted");
    require(throws([&] { TinyDIP::subimage(std::execution::seq, im, ns, bad, def); }), "subimage/dims", "centres of the wrong dimensionality accepted");
    pure.check();
}
VP_SECTION("subimage_u8", 500, 20000) { sub<std::uint8_t>(r, c, "u8"); }
VP_SECTION("subimage_rgb", 500, 20000) { sub<RGB>(r, c, "RGB"); }
VP_SECTION("subimage_double", 500, 20000) { sub<double>(r, c, "double"); }

template<class T> void sub2(Rng& r, Case& c, const char* tn)
{
    const Sz s = rnd_size2(r, 30);
    const std::size_t x0 = r.size(0, s[0] + 1), x1 = r.size(0, s[0] + 1), y0 = r.size(0, s[1] + 1), y1 = r.size(0, s[1] + 1);
    c.describe(tn, " ", shows(s), " x=", x0, "..", x1, " y=", y0, "..", y1);
    const auto im = rnd_image<T>(r, s);
    Pure<T> pure(im, "subimage2");
    const bool ok = x0 <= x1 && y0 <= y1 && x1 < s[0] && y1 < s[1];
    c.trivial = !ok;
    if (!ok)
    {
        require(throws([&] { TinyDIP::subimage2(im, x0, x1, y0, y1); }), "subimage2/reject", "an invalid region was accepted");
        event("regions_rejected");
    }
    else
    {
        Ref<T> want({ x1 - x0 + 1, y1 - y0 + 1 });
        for (std::size_t y = y0; y <= y1; ++y) for (std::size_t x = x0; x <= x1; ++x) want(x - x0, y - y0) = im.getImageData()[y * s[0] + x];
        expect(TinyDIP::subimage2(im, x0, x1, y0, y1), want, "subimage2");
        event("regions_cut");
    }
    pure.check();
}
VP_SECTION("subimage2_u8", 800, 20000) { sub2<std::uint8_t>(r, c, "u8"); }
VP_SECTION("subimage2_rgb", 800, 20000) { sub2<RGB>(r, c, "RGB"); }

template<class T> void splitcat(Rng& r, Case& c, const char* tn)
{
    const Sz s = rnd_size2(r, 30);
    const std::size_t xs = r.size(1, std::min<std::size_t>(s[0], 7)), ys = r.size(1, std::min<std::size_t>(s[1], 7));
    c.describe(tn, " ", shows(s), " into ", xs, "x", ys);
    const auto im = rnd_image<T>(r, s);
    Pure<T> pure(im, "split");
    const auto blocks = TinyDIP::split(im, xs, ys);
    const std::size_t bx = s[0] / xs, by = s[1] / ys;
    require(blocks.size() == ys, "split/rows", blocks.size(), " rows of blocks");
    Ref<T> covered({ bx * xs, by * ys });
    for (std::size_t y = 0; y < covered.h(); ++y) for (std::size_t x = 0; x < covered.w(); ++x) covered(x, y) = im.getImageData()[y * s[0] + x];
    for (std::size_t j = 0; j < ys; ++j)
    {
        require(blocks[j].size() == xs, "split/columns", blocks[j].size(), " blocks in row ", j);
        for (std::size_t i = 0; i < xs; ++i)
        {
            Ref<T> want({ bx, by });
            for (std::size_t y = 0; y < by; ++y) for (std::size_t x = 0; x < bx; ++x) want(x, y) = covered(i * bx + x, j * by + y);
            expect(blocks[j][i], want, cat("split/block"));
            event("blocks");
        }
    }
    expect(TinyDIP::concat(blocks), covered, "split-concat");
    if (bx * xs == s[0] && by * ys == s[1]) event("exact_reassembly");
    pure.check();
}
VP_SECTION("split_concat_u8", 500, 15000) { splitcat<std::uint8_t>(r, c, "u8"); }
VP_SECTION("split_concat_rgb", 500, 15000) { splitcat<RGB>(r, c, "RGB"); }

VP_SECTION("concat", 500, 15000)
{
    // ragged mosaic: rows of equal height inside, all rows of equal total width
    const std::size_t rows = r.size(1, 4), width = r.size(4, 24);
    std::vector<std::vector<Image<double>>> parts;
    std::size_t H = 0;
    std::vector<Ref<double>> strips;
    for (std::size_t j = 0; j < rows; ++j)
    {
        const std::size_t h = r.size(1, 6);
        std::size_t left = width;
        std::vector<Image<double>> row;
        Ref<double> strip({ width, h });
        std::size_t x0 = 0;
        while (left)
        {
            const std::size_t w = r.chance(0.3) ? left : r.size(1, left);
            const Sz bs{ w, h };
            row.push_back(rnd_image<double>(r, bs));
            for (std::size_t y = 0; y < h; ++y) for (std::size_t x = 0; x < w; ++x) strip(x0 + x, y) = row.back().getImageData()[y * w + x];
            left -= w; x0 += w;
        }
        expect(TinyDIP::concat_horizontal(row), strip, "concat_horizontal");
        if (row.size() >= 2)
        {
            Ref<double> two({ row[0].getWidth() + row[1].getWidth(), h });
            for (std::size_t y = 0; y < h; ++y) for (std::size_t x = 0; x < two.w(); ++x) two(x, y) = strip(x, y);
            expect(TinyDIP::concat_horizontal(row[0], row[1]), two, "concat_horizontal-pair");
        }
        strips.push_back(strip);
        parts.push_back(row);
        H += h;
    }
    c.describe(width, "x", H, " rows=", rows, " first=", parts[0].size());
    Ref<double> all({ width, H });
    std::size_t y0 = 0;
    std::vector<Image<double>> imgs;
    for (auto& s : strips)
    {
        for (std::size_t y = 0; y < s.h(); ++y) for (std::size_t x = 0; x < width; ++x) all(x, y0 + y) = s(x, y);
        y0 += s.h();
        imgs.push_back(to_image(s));
    }
    expect(TinyDIP::concat_vertical(imgs), all, "concat_vertical");
    expect(TinyDIP::concat(parts), all, "concat");
    event("mosaics");
    const Sz sa{ r.size(1, 6), r.size(1, 6) }, sb{ r.size(1, 6), r.size(1, 6) };
    const auto a = rnd_image<double>(r, sa), b = rnd_image<double>(r, sb);
    if (sa[1] != sb[1]) { require(throws([&] { TinyDIP::concat_horizontal(a, b); }), "concat_horizontal/mismatch", "heights ", sa[1], " and ", sb[1], " joined side by side"); event("mismatches"); }
    if (sa[0] != sb[0]) { require(throws([&] { TinyDIP::concat_vertical(a, b); }), "concat_vertical/mismatch", "widths ", sa[0], " and ", sb[0], " stacked"); event("mismatches"); }
}
template<class T> void paste(Rng& r, Case& c, const char* tn)
{
    const Sz s = rnd_size2(r, 16), t = rnd_size2(r, 16);
    const std::size_t X = r.size(0, s[0] + 3), Y = r.size(0, s[1] + 3);
    c.describe(tn, " ", shows(t), " onto ", shows(s), " at ", X, ",", Y);
    const auto bg = rnd_image<T>(r, s), tg = rnd_image<T>(r, t);
    const T def = rnd_value<T>(r);
    Pure<T> p1(bg, "paste2D"), p2(tg, "paste2D");
    Ref<T> want({ std::max(s[0], t[0] + X), std::max(s[1], t[1] + Y) }, def);
    for (std::size_t y = 0; y < s[1]; ++y) for (std::size_t x = 0; x < s[0]; ++x) want(x, y) = bg.getImageData()[y * s[0] + x];
    for (std::size_t y = 0; y < t[1]; ++y) for (std::size_t x = 0; x < t[0]; ++x) want(X + x, Y + y) = tg.getImageData()[y * t[0] + x];
    expect(TinyDIP::paste2D(bg, tg, X, Y, def), want, "paste2D");
    with_policy((int)r.range(0, 3), [&](auto&& p) { expect(TinyDIP::paste2D(p, bg, tg, X, Y, def), want, "paste2D-policy"); });
    const std::size_t bw = r.size(0, 5);
    Ref<T> bordered({ s[0] + 2 * bw, s[1] + 2 * bw }, def);
    for (std::size_t y = 0; y < s[1]; ++y) for (std::size_t x = 0; x < s[0]; ++x) bordered(bw + x, bw + y) = bg.getImageData()[y * s[0] + x];
    with_policy((int)r.range(0, 3), [&](auto&& p) { expect(TinyDIP::add_border_2d(p, bg, bw, def), bordered, "add_border_2d"); });
    p1.check(); p2.check();
    event("pastes");
    if (want.w() > s[0] || want.h() > s[1]) event("canvas_grown");
}
VP_SECTION("paste_u8", 500, 15000) { paste<std::uint8_t>(r, c, "u8"); }
VP_SECTION("paste_rgb", 500, 15000) { paste<RGB>(r, c, "RGB"); }
VP_SECTION("large_split", 2, 20) { Big big; splitcat<std::uint8_t>(r, c, "u8"); }
VP_SECTION("large_paste", 2, 20) { Big big; paste<std::uint8_t>(r, c, "u8"); }
VP_SECTION("large_sub", 2, 20) { Big big; sub<std::uint8_t>(r, c, "u8"); sub2<std::uint8_t>(r, c, "u8"); }
