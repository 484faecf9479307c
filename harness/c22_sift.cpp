// C22: keypoints, descriptors and matches are the ones their definitions give.
#include "img.hpp"
#include "image_operations.h"
using namespace vp;
namespace sift = TinyDIP::SIFT_impl;
using P2 = TinyDIP::Point<2>;
static P2 point(std::size_t x, std::size_t y) { P2 p{}; p.p[0] = x; p.p[1] = y; return p; }
struct Quiet
{
    std::ostringstream sink; std::streambuf *o, *e;
    Quiet() : o(std::cout.rdbuf(sink.rdbuf())), e(std::cerr.rdbuf(sink.rdbuf())) {}
    ~Quiet() { std::cout.rdbuf(o); std::cerr.rdbuf(e); }
};
// smooth-ish texture with ties here and there
static Image<double> texture(Rng& r, const Sz& s)
{
    Image<double> im(s);
    const int mode = (int)r.range(0, 3);
    struct B { double x, y, s, a; };
    std::vector<B> b(r.size(1, 12));
    for (auto& q : b) q = { r.real(0, (double)s[0]), r.real(0, (double)s[1]), r.real(0.7, 5), r.real(-120, 120) };
    for (std::size_t y = 0; y < s[1]; ++y) for (std::size_t x = 0; x < s[0]; ++x)
    {
        double v = 0;
        if (mode == 0) v = (double)r.range(-20, 20);
        else if (mode == 1) v = r.real(-50, 50);
        else for (auto& q : b) v += q.a * std::exp(-((x - q.x) * (x - q.x) + (y - q.y) * (y - q.y)) / (2 * q.s * q.s));
        im.at(x, y) = mode == 3 ? std::round(v) : v;
    }
    return im;
}
struct KP { std::size_t o, s; double x, y; };
static bool extremum(const Image<double>* im[3], std::size_t x, std::size_t y, double thr)
{
    const double c = im[1]->at(x, y);
    if (std::fabs(c) <= thr) return false;
    bool mx = true, mn = true;
    for (int l = 0; l < 3; ++l) for (int dy = -1; dy <= 1; ++dy) for (int dx = -1; dx <= 1; ++dx)
    {
        if (l == 1 && !dx && !dy) continue;
        const double v = im[l]->at(x + dx, y + dy);
        mx = mx && c > v; mn = mn && c < v;
    }
    return mx || mn;
}
static std::vector<KP> extrema(const Image<double>& a, const Image<double>& b, const Image<double>& d, std::size_t o, std::size_t s, double thr, double edge, bool filter)
{
    const Image<double>* im[3] = { &a, &b, &d };
    std::vector<KP> out;
    const std::size_t W = a.getWidth(), H = a.getHeight();
    for (std::size_t y = 1; y + 1 < H; ++y) for (std::size_t x = 1; x + 1 < W; ++x)
    {
        if (!extremum(im, x, y, thr)) continue;
        auto v = [&](int dx, int dy) { return b.at(x + dx, y + dy); };
        const double gx = (v(1, 0) - v(-1, 0)) / 2, gy = (v(0, 1) - v(0, -1)) / 2, xx = v(1, 0) + v(-1, 0) - 2 * v(0, 0), yy = v(0, 1) + v(0, -1) - 2 * v(0, 0), xy = (v(1, 1) - v(1, -1) - v(-1, 1) + v(-1, -1)) / 4;
        const double det = xx * yy - xy * xy, tr = xx + yy;
        if (filter && (v(0, 0) <= thr || tr * tr / det >= edge)) continue;
        out.push_back({ o, s, (double)x + (-yy * gx + xy * gy) / det, (double)y + (xy * gx - xx * gy) / det });
    }
    return out;
}
VP_SECTION("extrema", 250, 4000)
{
    Sz s{ r.size(1, 26), r.size(1, 26) };
    if (r.chance(0.03)) { s[0] = r.size(60, 140); s[1] = r.size(3, 70); if (r.chance(0.5)) std::swap(s[0], s[1]); event("large_scale_spaces"); }
    const auto a = texture(r, s), b = texture(r, s), d = texture(r, s);
    const double thr = r.pick(std::vector<double>{ 0, 3, 8 }), edge = r.real(4, 15);
    const bool filter = r.chance(0.5);
    const std::size_t o = r.size(0, 5), sc = r.size(0, 5);
    c.describe(shows(s), " threshold ", thr, " edge ", edge, filter ? " filtered " : " all ", b.getImageData()[0]);
    auto got = sift::find_local_extrema(a, b, d, o, sc, thr, edge, filter);
    auto want = extrema(a, b, d, o, sc, thr, edge, filter);
    require(got.size() == want.size(), "sift/extrema", got.size(), " keypoints instead of ", want.size());
    // the order of the keypoints is not part of the property
    std::sort(got.begin(), got.end(), [](auto& l, auto& r) { return std::make_pair(std::get<2>(l), std::get<3>(l)) < std::make_pair(std::get<2>(r), std::get<3>(r)); });
    std::sort(want.begin(), want.end(), [](auto& l, auto& r) { return std::make_pair(l.x, l.y) < std::make_pair(r.x, r.y); });
    for (std::size_t i = 0; i < got.size(); ++i)
    {
        const auto& [go, gs, gx, gy] = got[i];
        require(go == o && gs == sc && close(gx, want[i].x, 1e-6, 1e-6) && close(gy, want[i].y, 1e-6, 1e-6), "sift/extrema", "keypoint ", i, " is ", gx, ",", gy, " instead of ", want[i].x, ",", want[i].y);
        event("extrema");
    }
    const Sz other{ s[0] + 1, s[1] };
    require(throws([&] { sift::find_local_extrema(a, b, Image<double>(other), o, sc, thr, edge, filter); }) && throws([&] { sift::find_local_extrema(Image<double>(other), b, d, o, sc, thr, edge, filter); }), "sift/extrema-size", "images of different sizes were accepted");
}
VP_SECTION("is_extremum", 2000, 20000)
{
    const Sz s{ 3, 3 };
    Image<double> im[3] = { Image<double>(s), Image<double>(s), Image<double>(s) };
    const double cen = r.pick(std::vector<double>{ -5, -0.02, 0.02, 5, 0.03 }), thr = 0.03;
    for (auto& k : im) for (auto& v : k.getImageData()) v = r.chance(0.9) ? (cen > 0 ? cen - r.real(0.001, 3) : cen + r.real(0.001, 3)) : cen + (r.chance(0.3) ? 0.0 : r.real(-2, 2));
    if (r.chance(0.5)) for (auto& k : im) for (auto& v : k.getImageData()) v = cen > 0 ? cen - r.real(0.001, 3) : cen + r.real(0.001, 3);
    std::size_t spoil = 99;
    if (r.chance(0.4)) { spoil = r.size(0, 26); im[spoil / 9].getImageData()[spoil % 9] = cen; }
    im[1].at(std::size_t{ 1 }, std::size_t{ 1 }) = cen;
    c.describe("centre ", cen, " spoiled ", spoil, " ", im[0].getImageData()[0]);
    const Image<double>* p[3] = { &im[0], &im[1], &im[2] };
    const bool want = extremum(p, 1, 1, thr);
    require(sift::is_it_extremum(im[0], im[1], im[2], thr) == want, "sift/is_extremum", "says ", !want);
    event(want ? "extremum_yes" : "extremum_no");
    const Sz bad{ 3, 4 };
    require(throws([&] { sift::is_it_extremum(im[0], Image<double>(bad), im[2], thr); }), "sift/is_extremum-size", "a 3x4 block was accepted");
}
VP_SECTION("mapping", 1000, 10000)
{
    const std::size_t w = r.size(1, 500), h = r.size(1, 500), tw = r.size(1, 1000), th = r.size(1, 1000);
    const double x = r.real(0, (double)w - 1e-6), y = r.real(0, (double)h - 1e-6);
    c.describe(x, ",", y, " of ", w, "x", h, " to ", tw, "x", th);
    const auto p = sift::mapping_point(std::make_tuple(x, y), w, h, tw, th);
    const double ex = x / (double)w * (double)tw, ey = y / (double)h * (double)th;
    auto ok = [](std::size_t got, double want) { return got == (std::size_t)want || (std::fabs(want - std::round(want)) < 1e-9 && std::fabs((double)got - want) <= 1); };
    require(ok(p.p[0], ex) && ok(p.p[1], ey), "sift/mapping", "mapped to ", p.p[0], ",", p.p[1], " instead of ", ex, ",", ey);
    event("mapped");
}
static void gradient(const Image<double>& im, long long x, long long y, double& m, double& a)
{
    auto v = [&](long long X, long long Y) { return X < 0 || Y < 0 || X >= (long long)im.getWidth() || Y >= (long long)im.getHeight() ? 0.0 : (double)im.at((std::size_t)X, (std::size_t)Y); };
    const double dx = v(x + 1, y) - v(x - 1, y), dy = v(x, y + 1) - v(x, y - 1);
    m = std::sqrt(dx * dx + dy * dy); a = std::atan2(dy, dx) * 180 / 3.14159265358979323846 + 180;
}
VP_SECTION("orientation", 600, 8000)
{
    Sz s{ r.size(12, 40), r.size(12, 40) };
    if (r.chance(0.03)) { s[r.size(0, 1)] = r.size(65, 300); event("large_blocks"); }
    const auto im = texture(r, s);
    Pure<double> pure(im, "descriptor");
    const std::size_t blk = r.size(1, 5);
    // low side at least a block away from the border; the high side may be cut
    const P2 p = point(r.size(8, s[0] - 1), r.size(8, s[1] - 1));
    c.describe(shows(s), " point ", p.p[0], ",", p.p[1], " block ", blk, " ", im.getImageData()[0]);
    const auto g3 = sift::compute_each_pixel_orientation(TinyDIP::subimage(im, std::size_t{ 3 }, std::size_t{ 3 }, p.p[0], p.p[1]));
    double m, a; gradient(im, (long long)p.p[0], (long long)p.p[1], m, a);
    require(close(std::get<0>(g3), m, 1e-9, 1e-9) && (m < 1e-9 || close(std::get<1>(g3), a, 1e-9, 1e-7)), "sift/gradient", "magnitude ", std::get<0>(g3), " angle ", std::get<1>(g3), " instead of ", m, " ", a);
    // angles on the boundary of a bin may fall on either side
    auto histogram = [&](std::vector<double> got, std::vector<double> lo, std::vector<double> hi, const char* key) {
        require(got.size() == lo.size(), key, got.size(), " bins");
        for (std::size_t i = 0; i < got.size(); ++i) require(got[i] >= lo[i] - 1e-6 && got[i] <= hi[i] + 1e-6, key, "bin ", i, " holds ", got[i], " instead of ", hi[i]);
    };
    auto vote = [&](double mag, double ang, double width, std::size_t top, std::vector<double>& lo, std::vector<double>& hi, std::size_t base) {
        const double q = ang / width;
        const std::size_t b0 = std::min((std::size_t)std::max(0.0, std::floor(q - 1e-9)), top), b1 = std::min((std::size_t)std::floor(q + 1e-9), top);
        if (b0 == b1) lo[base + b0] += mag;
        hi[base + b0] += mag; if (b1 != b0) hi[base + b1] += mag;
    };
    {
        std::vector<double> lo(37, 0), hi(37, 0);
        for (long long y = (long long)(p.p[1] - blk); y <= (long long)(p.p[1] + blk); ++y) for (long long x = (long long)(p.p[0] - blk); x <= (long long)(p.p[0] + blk); ++x)
        {
            if (x >= (long long)s[0] || y >= (long long)s[1]) continue;
            gradient(im, x, y, m, a); vote(m, a, 10, 36, lo, hi, 0);
        }
        histogram(sift::get_orientation_histogram(im, p, blk), lo, hi, "sift/orientation-histogram");
    }
    {
        std::vector<double> lo(128, 0), hi(128, 0);
        for (long long j = 0; j < 16; ++j) for (long long i = 0; i < 16; ++i)
        {
            const long long x = (long long)p.p[0] - 8 + i, y = (long long)p.p[1] - 8 + j;
            if (x >= (long long)s[0] || y >= (long long)s[1]) continue;
            gradient(im, x, y, m, a);
            vote(m, a, 45, 7, lo, hi, (std::size_t)((j / 4) * 4 + i / 4) * 8);
        }
        histogram(sift::get_keypoint_descriptor<double, double>(im, p), lo, hi, "sift/descriptor");
        event("descriptors");
    }
    pure.check();
}
VP_SECTION("keypoints", 40, 600)
{
    const Sz s{ r.size(16, 90), r.size(16, 90) };
    auto im = texture(r, s);
    for (auto& v : im.getImageData()) v += 100;
    const std::size_t oct = r.size(1, 3);
    // an octave narrower than its widest kernel is left out
    const std::size_t lev = r.size(1, 6);
    const double widest = 2 * std::ceil(3.2 * std::pow(std::sqrt(2.0), (double)lev - 1)) + 1;
    const double thr = r.pick(std::vector<double>{ 0.5, 3, 8 });
    c.describe(shows(s), " octaves ", oct, " levels ", lev, " threshold ", thr, " ", im.getImageData()[0]);
    Pure<double> pure(im, "keypoints");
    Quiet q;
    std::vector<std::pair<std::size_t, std::size_t>> want;
    Image<double> base = im;
    bool near = false;
    for (std::size_t o = 0; o < oct; ++o)
    {
        if (base.getWidth() < 20 || base.getHeight() < 20) break;
        if ((double)std::min(base.getWidth(), base.getHeight()) <= widest) { event("octaves_left_out"); break; }
        std::vector<Image<double>> dog;
        for (std::size_t i = 0; i + 1 < lev; ++i) dog.push_back(TinyDIP::difference_of_gaussian(base, 1.6 * std::pow(std::sqrt(2.0), (double)i), 1.6 * std::pow(std::sqrt(2.0), (double)i + 1)));
        for (std::size_t i = 0; i + 2 < dog.size(); ++i) for (auto& k : extrema(dog[i], dog[i + 1], dog[i + 2], o, i, thr, 12.1, false))
        {
            const double w = (double)base.getWidth(), h = (double)base.getHeight();
            if (!(k.x >= 0 && k.x < w && k.y >= 0 && k.y < h)) continue;
            const double ex = k.x / w * (double)s[0], ey = k.y / h * (double)s[1];
            if (std::fabs(ex - std::round(ex)) < 1e-7 || std::fabs(ey - std::round(ey)) < 1e-7) near = true;
            want.emplace_back((std::size_t)ex, (std::size_t)ey);
        }
        base = TinyDIP::lanczos_resample(base, base.getWidth() / 2, base.getHeight() / 2);
    }
    auto get = [&](auto&& p) {
        std::vector<std::pair<std::size_t, std::size_t>> o;
        for (auto& k : sift::get_potential_keypoint(p, im, oct, lev, 1.6, std::numbers::sqrt2_v<double>, thr, 12.1)) o.emplace_back(k.p[0], k.p[1]);
        return o;
    };
    auto seq = get(std::execution::seq), par = get(std::execution::par);
    for (auto& [x, y] : seq) require(x < s[0] && y < s[1], "sift/keypoints-inside", "keypoint ", x, ",", y, " lies outside");
    auto sorted = [](auto v) { std::sort(v.begin(), v.end()); return v; };
    require(sorted(seq) == sorted(par), "sift/keypoints-policy", seq.size(), " keypoints sequentially, ", par.size(), " in parallel, or other ones");
    if (!near) require(sorted(seq) == sorted(want), "sift/keypoints", seq.size(), " keypoints, the definition gives ", want.size(), " or other ones");
    event("keypoints", seq.size());
    pure.check();
}

VP_SECTION("octave", 60, 800)
{
    const bool small = r.chance(0.3);
    const Sz s{ r.size(small ? 1 : 12, 40), r.size(small ? 1 : 12, 40) };
    const std::size_t lev = r.size(0, 6);
    const double sg = r.real(0.6, 1.8), k = r.real(1.05, 1.5);
    c.describe(shows(s), " levels ", lev, " sigma ", sg, " k ", k);
    auto go = [&](const auto& im, auto one) {
        Pure<std::remove_cvref_t<decltype(im.at(0, 0))>> pure(im, "octave");
        using One = decltype(one(im, 1.0, 1.0));
        std::vector<One> want; bool refused = false;
        // an image narrower than the widest kernel is refused, in a way the caller can catch
        try { for (std::size_t i = 0; i + 1 < lev; ++i) want.push_back(one(im, sg * std::pow(k, (double)i), sg * std::pow(k, (double)i + 1))); }
        catch (const std::exception&) { refused = true; }
        bool threw = false;
        try
        {
            const auto got = sift::generate_octave(im, lev, sg, k);
            require(!refused, "sift/octave-refused", "an octave of an image that is too small for its widest kernel");
            require(got.size() == (lev < 2 ? 0 : lev - 1), "sift/octave-count", got.size(), " differences of ", lev, " levels");
            for (std::size_t i = 0; i < got.size(); ++i)
            {
                const auto& g = got[i].getImageData(); const auto& w = want[i].getImageData();
                require(got[i].getSize() == want[i].getSize() && g.size() == w.size(), "sift/octave-size", "difference ", i, " has another size");
                for (std::size_t j = 0; j < g.size(); ++j)
                {
                    require(close(g[j], w[j]), "sift/octave", "difference ", i, " at ", j, " is ", g[j], " not ", w[j]);
                }
            }
            event("octave_levels", got.size()); event(lev == 2 ? "octave_of_two" : "octaves");
        }
        catch (const Violation&) { throw; }
        catch (const std::exception&) { threw = true; }
        require(threw == refused, "sift/octave-refused", "the octave was ", threw ? "refused" : "made", " but its differences can", refused ? "not" : "", " be made");
        if (threw) event("octave_refused");
        pure.check();
    };
    const auto im = texture(r, s);
    if (r.chance(0.7)) go(im, [](const auto& i, double a, double b) { return TinyDIP::difference_of_gaussian(i, a, b); });
    else
    {
        Image<float> f(s);
        for (std::size_t j = 0; j < f.count(); ++j) f.getImageData()[j] = (float)im.getImageData()[j];
        event("octave_float");
        go(f, [](const auto& i, double a, double b) { return TinyDIP::difference_of_gaussian(i, a, b); });
    }
}

using Desc = std::vector<double>;
static std::vector<std::pair<std::size_t, std::size_t>> match_ref(const std::vector<Desc>& a, const std::vector<Desc>& b, double ratio)
{
    std::vector<std::pair<std::size_t, std::size_t>> m;
    for (std::size_t i = 0; i < a.size(); ++i)
    {
        std::vector<std::pair<double, std::size_t>> d;
        for (std::size_t j = 0; j < b.size(); ++j) { double s = 0; for (std::size_t k = 0; k < a[i].size(); ++k) s += (a[i][k] - b[j][k]) * (a[i][k] - b[j][k]); d.emplace_back(s, j); }
        std::sort(d.begin(), d.end());
        const double second = d.size() > 1 ? d[1].first : std::numeric_limits<double>::max();
        if (!d.empty() && d[0].first < ratio * ratio * second) m.emplace_back(i, d[0].second);
    }
    return m;
}
VP_SECTION("matches", 800, 12000)
{
    // integer descriptors: distances are exact, ties are common
    const std::size_t n = r.chance(0.02) ? r.size(15, 150) : r.size(0, 14), m = r.chance(0.02) ? r.size(15, 150) : r.size(0, 14), dim = r.pick(std::vector<std::size_t>{ 1, 3, 16, 128 });
    const long long hi = r.pick(std::vector<long long>{ 1, 6, 200 });
    std::vector<Desc> a(n), b(m);
    for (auto& d : a) { d.resize(dim); for (auto& v : d) v = (double)r.range(0, hi); }
    for (auto& d : b) { d.resize(dim); for (auto& v : d) v = (double)r.range(0, hi); if (n && r.chance(0.5)) { d = a[r.size(0, n - 1)]; if (r.chance(0.6)) d[r.size(0, dim - 1)] += (double)r.range(0, 2); } }
    const double ratio = r.pick(std::vector<double>{ 0.5, 0.75, 0.875, 1.0 });
    std::string d; for (auto& q : a) d += cat(q[0], " "); for (auto& q : b) d += cat(q[0], " ");
    c.describe(n, " and ", m, " descriptors of ", dim, " ratio ", ratio, " ", d.substr(0, 60));
    Quiet q;
    const auto f = match_ref(a, b, ratio), g = match_ref(b, a, ratio);
    auto sorted = [](auto v) { std::sort(v.begin(), v.end()); return v; };
    require(TinyDIP::find_raw_matches(a, b, ratio) == f, "sift/raw-matches", "wrong matches");
    std::vector<std::pair<std::size_t, std::size_t>> rob;
    for (auto& p : f) if (std::find(g.begin(), g.end(), std::make_pair(p.second, p.first)) != g.end()) rob.push_back(p);
    require(TinyDIP::find_robust_matches(a, b, ratio) == rob, "sift/robust-matches", "wrong matches");
    const int pol = (int)r.range(0, 1);
    with_policy(pol, [&](auto&& p) {
        require(sorted(TinyDIP::find_raw_matches(p, a, b, ratio)) == f, "sift/raw-matches-policy", "wrong matches");
        require(sorted(TinyDIP::find_keypoint_matches(p, a, b, ratio)) == f, "sift/keypoint-matches", "wrong matches");
        require(sorted(TinyDIP::find_robust_matches(p, a, b, ratio)) == rob, "sift/robust-matches-policy", "wrong matches");
    });
    event("matches", f.size()); event("robust_matches", rob.size()); event("matches_dropped_by_cross_check", f.size() - rob.size());
}
