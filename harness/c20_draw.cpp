// C20: drawing changes exactly the pixels of the shape that lie inside the image.
#include "img.hpp"
#include "image_operations.h"
using namespace vp;
using P2 = TinyDIP::Point<2>;

static P2 point(std::size_t x, std::size_t y) { P2 p{}; p.p[0] = x; p.p[1] = y; return p; }
// inside, on and beyond the far border
static std::size_t coord(Rng& r, std::size_t n)
{
    switch (r.range(0, 5)) { case 0: return 0; case 1: return n - 1; case 2: return n + r.size(0, 12); default: return r.size(0, n - 1); }
}

template<class T> void points(Rng& r, Case& c, const char* tn)
{
    const Sz s = rnd_size2(r, 30);
    const auto im = rnd_image<T>(r, s);
    const T v = r.chance(0.2) ? T{} : rnd_value<T>(r);
    std::vector<P2> pts(r.size(1, 4));
    for (auto& p : pts) p = point(coord(r, s[0]), coord(r, s[1]));
    std::size_t reach = 0; // now and then a centre far outside, whose disc may still come back into the image
    if (r.chance(0.05)) { const std::size_t far = r.size(250, 700); pts[0].p[r.range(0, 1)] += far; reach = far + r.size(0, 20); event("far_centres"); }
    const std::size_t rad = reach && r.chance(0.7) ? reach : r.chance(0.1) ? 0 : r.chance(0.1) ? r.size(20, 45) : r.size(1, 9);
    std::string d; for (auto& p : pts) d += cat(p.p[0], ",", p.p[1], " ");
    c.describe(tn, " ", shows(s), " points ", d, " radius ", rad);
    Pure<T> pure(im, "draw_point");
    auto want = snap(im);
    auto paint = [&](const P2& p) {
        for (std::size_t y = 0; y < s[1]; ++y) for (std::size_t x = 0; x < s[0]; ++x)
        {
            const long long dx = (long long)x - (long long)p.p[0], dy = (long long)y - (long long)p.p[1];
            if (dx * dx + dy * dy < (long long)(rad * rad)) { want(x, y) = v; event("disc_pixels"); }
        }
    };
    paint(pts[0]);
    expect(TinyDIP::draw_point(im, pts[0], v, rad), want, "draw_point");
    for (std::size_t i = 1; i < pts.size(); ++i) paint(pts[i]);
    expect(TinyDIP::draw_points(im, pts, v, rad), want, "draw_points");
    pure.check();
}
VP_SECTION("points_u8", 1200, 20000) { points<std::uint8_t>(r, c, "u8"); }
VP_SECTION("points_rgb", 800, 12000) { points<RGB>(r, c, "RGB"); }

template<class T> void circles(Rng& r, Case& c, const char* tn)
{
    const Sz s = rnd_size2(r, 40);
    const auto im = rnd_image<T>(r, s);
    const T v = rnd_value<T>(r);
    std::size_t cx = coord(r, s[0]), cy = coord(r, s[1]), reach = 0;
    if (r.chance(0.05)) { const std::size_t far = r.size(250, 700); (r.chance(0.5) ? cx : cy) += far; reach = far + r.size(0, 20); event("far_centres"); }
    const std::size_t rad = reach && r.chance(0.7) ? reach : r.chance(0.1) ? 0 : r.chance(0.15) ? r.size(20, 60) : r.size(1, 15);
    c.describe(tn, " ", shows(s), " centre ", cx, ",", cy, " radius ", rad);
    Pure<T> pure(im, "draw_circle");
    auto want = snap(im);
    auto set = [&](long long x, long long y) { if (x >= 0 && y >= 0 && x < (long long)s[0] && y < (long long)s[1]) { want((std::size_t)x, (std::size_t)y) = v; event("circle_pixels"); } else event("circle_pixels_clipped"); };
    if (rad)
    {
        const long long R = (long long)rad, X = (long long)cx, Y = (long long)cy;
        // outline of one octant: the innermost pixel centre not inside the circle, moving inwards by at most one per column
        long long y = R;
        for (long long x = 0; x <= y; ++x)
        {
            long long need = 0; while (x * x + need * need < R * R) ++need;
            y = std::max(need, y - 1);
            for (int sx : { -1, 1 }) for (int sy : { -1, 1 }) { set(X + sx * x, Y + sy * y); set(X + sx * y, Y + sy * x); }
        }
    }
    expect(TinyDIP::draw_circle(im, std::make_tuple(cx, cy), rad, v), want, "draw_circle");
    pure.check();
}
VP_SECTION("circles_u8", 1500, 20000) { circles<std::uint8_t>(r, c, "u8"); }
VP_SECTION("circles_rgb", 700, 12000) { circles<RGB>(r, c, "RGB"); }

template<class T> void lines(Rng& r, Case& c, const char* tn)
{
    const Sz s = rnd_size2(r, 40);
    const auto im = rnd_image<T>(r, s);
    T v = rnd_value<T>(r);
    const long long x1 = (long long)coord(r, s[0]), y1 = (long long)coord(r, s[1]);
    long long x2 = (long long)coord(r, s[0]), y2 = (long long)coord(r, s[1]);
    switch (r.range(0, 6)) { case 0: x2 = x1; break; case 1: y2 = y1; break; case 2: { const long long k = r.range(0, 9); x2 = x1 + k; y2 = y1 + k; break; } default: break; }
    if (r.chance(0.02)) { (r.chance(0.5) ? x2 : y2) += r.range(250, 4000); event("long_lines"); }
    c.describe(tn, " ", shows(s), " from ", x1, ",", y1, " to ", x2, ",", y2);
    Pure<T> pure(im, "draw_line");
    // the whole line on a blank canvas that holds it
    const Sz big{ (std::size_t)std::max({ x1, x2, (long long)s[0] - 1 }) + 1, (std::size_t)std::max({ y1, y2, (long long)s[1] - 1 }) + 1 };
    const Image<std::uint8_t> blank(big);
    const auto line = TinyDIP::draw_line(blank, point(x1, y1), point(x2, y2), (std::uint8_t)1);
    require(line.getWidth() == big[0] && line.getHeight() == big[1], "draw_line", "the canvas changed size");
    const long long dx = std::llabs(x2 - x1), dy = std::llabs(y2 - y1), len = std::max(dx, dy);
    require(line.at((std::size_t)x1, (std::size_t)y1) == 1 && line.at((std::size_t)x2, (std::size_t)y2) == 1, "draw_line/ends", "an end point is not drawn");
    std::vector<int> per((std::size_t)len + 1, 0);
    long long total = 0, last = -1;
    const bool steep = dy > dx;
    std::vector<long long> minor((std::size_t)len + 1, 0);
    for (long long y = 0; y < (long long)big[1]; ++y) for (long long x = 0; x < (long long)big[0]; ++x)
    {
        if (!line.at((std::size_t)x, (std::size_t)y)) continue;
        ++total; event("line_pixels");
        const long long along = steep ? (y2 >= y1 ? y - y1 : y1 - y) : (x2 >= x1 ? x - x1 : x1 - x);
        const long long across = steep ? (x2 >= x1 ? x - x1 : x1 - x) : (y2 >= y1 ? y - y1 : y1 - y);
        require(along >= 0 && along <= len, "draw_line/extent", "pixel ", x, ",", y, " lies beyond the line");
        // ideal minor offset along*min/len; the drawn pixel centre is within half a pixel
        const long long mn = std::min(dx, dy);
        require(len == 0 ? across == 0 : std::llabs(2 * (across * len - along * mn)) <= len, "draw_line/distance", "pixel ", x, ",", y, " is more than half a pixel off the line");
        ++per[(std::size_t)along]; minor[(std::size_t)along] = across;
    }
    (void)last;
    for (std::size_t i = 0; i < per.size(); ++i) require(per[i] == 1, "draw_line/gap", per[i], " pixels at step ", i, " of ", len);
    for (std::size_t i = 1; i < per.size(); ++i) require(std::llabs(minor[i] - minor[i - 1]) <= 1, "draw_line/gap", "the line jumps at step ", i);
    // on the image: the same pixels, clipped
    auto want = snap(im);
    for (std::size_t y = 0; y < s[1]; ++y) for (std::size_t x = 0; x < s[0]; ++x) if (line.at(x, y)) want(x, y) = v;
    expect(TinyDIP::draw_line(im, point(x1, y1), point(x2, y2), v), want, "draw_line/clipped");
    if (big != s) event("lines_clipped");
    pure.check();
}
VP_SECTION("lines_u8", 2000, 30000) { lines<std::uint8_t>(r, c, "u8"); }
VP_SECTION("lines_rgb", 800, 12000) { lines<RGB>(r, c, "RGB"); }

VP_SECTION("highlight", 1500, 20000)
{
    const Sz s = rnd_size2(r, 40);
    const auto im = rnd_image<RGB>(r, s);
    const std::size_t x0 = coord(r, s[0]), y0 = coord(r, s[1]), x1 = x0 + (r.chance(0.05) ? r.size(100, 2000) : r.size(0, 20)), y1 = y0 + (r.chance(0.05) ? r.size(100, 2000) : r.size(0, 20)), w = r.chance(0.05) ? r.size(10, 60) : r.size(0, 9);
    const RGB v = r.chance(0.3) ? RGB{ { 223, 0, 34 } } : rnd_value<RGB>(r);
    c.describe(shows(s), " region ", x0, "-", x1, " ", y0, "-", y1, " width ", w);
    Pure<RGB> pure(im, "highlight");
    auto want = snap(im);
    const long long h = (long long)(w / 2);
    for (long long y = 0; y < (long long)s[1]; ++y) for (long long x = 0; x < (long long)s[0]; ++x)
    {
        if (x < (long long)x0 - h || x >= (long long)x1 + h || y < (long long)y0 - h || y >= (long long)y1 + h) continue;
        const long long W = (long long)w;
        if (std::llabs(x - (long long)x0) < W || std::llabs(x - (long long)x1) < W || std::llabs(y - (long long)y0) < W || std::llabs(y - (long long)y1) < W) { want((std::size_t)x, (std::size_t)y) = v; event("frame_pixels"); }
    }
    expect(TinyDIP::highlight_region(im, x0, x1, y0, y1, w, v.channels[0], v.channels[1], v.channels[2]), want, "highlight_region");
    pure.check();
}
static bool same_rgb(const RGB& a, const RGB& b) { return std::equal(std::begin(a.channels), std::end(a.channels), std::begin(b.channels)); }
// side by side, each match a line and two discs of one bright colour of its own
VP_SECTION("matches", 150, 2500)
{
    const std::size_t h = r.size(4, 30);
    const Sz s1{ r.size(4, 30), h }, s2{ r.size(4, 30), h };
    const auto a = rnd_image<RGB>(r, s1), b = rnd_image<RGB>(r, s2);
    const std::size_t many = r.chance(0.05) ? 60 : 5;
    std::vector<P2> k1(r.size(1, many)), k2(r.size(1, many));
    for (auto& p : k1) p = point(r.size(0, s1[0] - 1), r.size(0, h - 1));
    for (auto& p : k2) p = point(r.size(0, s2[0] - 1), r.size(0, h - 1));
    std::vector<std::pair<std::size_t, std::size_t>> m(r.size(0, many - 1));
    for (auto& q : m) q = { r.size(0, k1.size() - 1), r.size(0, k2.size() - 1) };
    c.describe(shows(s1), " ", shows(s2), " ", m.size(), " matches of ", k1.size(), " and ", k2.size(), " ", a.count(), (int)a.get(0).channels[0]);
    Pure<RGB> pa(a, "draw_matches"), pb(b, "draw_matches");
    const auto got = TinyDIP::draw_matches(a, b, k1, k2, m);
    const auto base = TinyDIP::concat_horizontal(TinyDIP::copyResizeBicubic(a, s1[0], h), TinyDIP::copyResizeBicubic(b, s2[0], h));
    require(got.getSize() == base.getSize(), "draw_matches/size", "canvas ", got.getWidth(), "x", got.getHeight());
    const Sz cs{ base.getWidth(), base.getHeight() };
    std::vector<int> owner(cs[0] * cs[1], -1);
    for (std::size_t q = 0; q < m.size(); ++q)
    {
        Image<std::uint8_t> blank(cs);
        const P2 p = k1[m[q].first], t = point(k2[m[q].second].p[0] + s1[0], k2[m[q].second].p[1]);
        auto mark = TinyDIP::draw_line(blank, p, t, std::uint8_t(1));
        mark = TinyDIP::draw_point(mark, p, std::uint8_t(1), 5);
        mark = TinyDIP::draw_point(mark, t, std::uint8_t(1), 5);
        for (std::size_t i = 0; i < owner.size(); ++i) if (mark.get(i)) owner[i] = (int)q;
    }
    std::vector<std::optional<RGB>> colour(m.size());
    for (std::size_t i = 0; i < owner.size(); ++i)
    {
        const RGB v = got.get(i);
        if (owner[i] < 0) { require(same_rgb(v, base.get(i)), "draw_matches/outside", "a pixel outside every mark changed at ", i); continue; }
        auto& k = colour[owner[i]];
        if (!k) k = v;
        require(same_rgb(v, *k), "draw_matches/colour", "match ", owner[i], " is drawn in more than one colour");
        require(v.channels[0] >= 127 && v.channels[1] >= 127 && v.channels[2] >= 127, "draw_matches/bright", "match ", owner[i], " is drawn in a dark colour");
        event("match_pixels");
    }
    pa.check(); pb.check();
    event("matches_drawn", m.size());
}
VP_SECTION("dimensions", 60, 200)
{
    const Sz s{ 3, 4, 2 };
    c.describe("3-D image ", r.next() % 1000);
    const Image<double> im(s);
    require(throws([&] { TinyDIP::draw_circle(im, std::make_tuple(std::size_t{ 1 }, std::size_t{ 1 }), 2, 1.0); }), "draw_circle/dims", "a 3-D image was accepted");
    require(throws([&] { TinyDIP::draw_line(im, point(0, 0), point(1, 1), 1.0); }), "draw_line/dims", "a 3-D image was accepted");
}
