// C21: homographies map the points they were computed from; warping and stitching put every pixel where the homography says.
#include "img.hpp"
#include "image_operations.h"
using namespace vp;
namespace la = TinyDIP::linalg;
using P2 = TinyDIP::Point<2>;
using LD = long double;
static P2 point(std::size_t x, std::size_t y) { P2 p{}; p.p[0] = x; p.p[1] = y; return p; }
template<class T> void project(const la::Matrix<T>& H, double x, double y, LD& u, LD& v, LD& w)
{
    w = (LD)H.at(2, 0) * x + (LD)H.at(2, 1) * y + H.at(2, 2);
    u = ((LD)H.at(0, 0) * x + (LD)H.at(0, 1) * y + H.at(0, 2)) / w;
    v = ((LD)H.at(1, 0) * x + (LD)H.at(1, 1) * y + H.at(1, 2)) / w;
}
struct Quiet
{
    std::ostringstream sink; std::streambuf *o, *e;
    Quiet() : o(std::cout.rdbuf(sink.rdbuf())), e(std::cerr.rdbuf(sink.rdbuf())) {}
    ~Quiet() { std::cout.rdbuf(o); std::cerr.rdbuf(e); }
};
static std::string showm(const la::Matrix<double>& m) { std::string s; for (std::size_t i = 0; i < m.rows(); ++i) for (std::size_t j = 0; j < m.cols(); ++j) s += cat(m.at(i, j), " "); return s; }
static la::Matrix<double> mat(std::initializer_list<double> v) { la::Matrix<double> m(3, 3); auto it = v.begin(); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) m.at(i, j) = *it++; return m; }

VP_SECTION("four_points", 1500, 20000)
{
    // a convex quadrilateral onto a convex quadrilateral determines the homography
    auto quad = [&](double lo, double hi) {
        const double m = (lo + hi) / 2, q = (hi - lo) / 5;
        std::vector<P2> p;
        const double cx[4] = { lo + q, hi - q, hi - q, lo + q }, cy[4] = { lo + q, lo + q, hi - q, hi - q };
        for (int i = 0; i < 4; ++i) p.push_back(point((std::size_t)std::lround(cx[i] + r.real(-q, q)), (std::size_t)std::lround(cy[i] + r.real(-q, q))));
        (void)m; return p;
    };
    const double e = r.pick(std::vector<double>{ 20, 40, 80 });
    const auto a = quad(r.real(0, 10), r.real(0, 10) + e), b = quad(r.real(0, 10), r.real(0, 10) + e);
    std::vector<std::pair<P2, P2>> pts;
    for (int i = 0; i < 4; ++i) pts.emplace_back(a[i], b[i]);
    auto flat = [&](const std::vector<P2>& p) {
        for (int i = 0; i < 4; ++i)
        {
            auto X = [&](int k) { return (double)p[(i + k) % 4].p[0]; }; auto Y = [&](int k) { return (double)p[(i + k) % 4].p[1]; };
            if (((X(1) - X(0)) * (Y(2) - Y(0)) - (X(2) - X(0)) * (Y(1) - Y(0))) < 0.15 * e * e) return true;
        }
        return false;
    };
    if (flat(a) || flat(b)) { c.trivial = true; return; }
    std::string d; for (auto& [p, q] : pts) d += cat(p.p[0], ",", p.p[1], ">", q.p[0], ",", q.p[1], " ");
    c.describe(d);
    la::Matrix<double> H;
    require(TinyDIP::compute_homography<double>(pts, H), "homography/refused", "four points in general position were refused");
    require(H.rows() == 3 && H.cols() == 3 && close(H.at(2, 2), 1, 1e-12), "homography/scale", "not normalised: ", showm(H));
    for (auto& [p, q] : pts)
    {
        LD u, v, w; project(H, (double)p.p[0], (double)p.p[1], u, v, w);
        require(std::fabs(u - q.p[0]) < 0.02L && std::fabs(v - q.p[1]) < 0.02L, "homography/maps", p.p[0], ",", p.p[1], " goes to ", (double)u, ",", (double)v, " instead of ", q.p[0], ",", q.p[1]);
        event("points_mapped");
    }
    pts.resize(r.size(0, 3));
    require(!TinyDIP::compute_homography<double>(pts, H), "homography/too-few", pts.size(), " points were accepted");
}

struct Scene { std::vector<P2> k1, k2; std::vector<std::pair<std::size_t, std::size_t>> matches; std::vector<bool> inlier; long long sx, sy, tx, ty, hx = 0, hy = 0; };
static Scene scene(Rng& r, std::size_t n, std::size_t bad, bool swap_order)
{
    Scene s;
    s.sx = r.range(1, 2); s.sy = r.range(1, 2); s.tx = r.range(0, 40); s.ty = r.range(0, 40);
    if (r.chance(0.4)) { do { s.hx = r.range(0, 2); s.hy = r.range(0, 2); } while (s.sx * s.sy == s.hx * s.hy); event("sheared_scenes"); }
    const std::size_t total = n + bad;
    std::set<std::pair<std::size_t, std::size_t>> used;
    while (s.k1.size() < total)
    {
        const std::size_t x = r.size(0, 120), y = r.size(0, 120);
        if (used.insert({ x, y }).second) s.k1.push_back(point(x, y));
    }
    s.k2.resize(total);
    std::vector<std::size_t> perm(total);
    for (std::size_t i = 0; i < total; ++i) perm[i] = i;
    for (std::size_t i = total; i-- > 1;) std::swap(perm[i], perm[r.size(0, i)]);
    for (std::size_t i = 0; i < total; ++i)
    {
        const bool in = i < n;
        const long long px = (long long)s.k1[i].p[0], py = (long long)s.k1[i].p[1], x = px * s.sx + py * s.hx + s.tx, y = py * s.sy + px * s.hy + s.ty;
        s.k2[perm[i]] = in ? point((std::size_t)x, (std::size_t)y) : point((std::size_t)(x + r.range(25, 80)), (std::size_t)(y + r.range(25, 80)));
    }
    std::vector<std::size_t> order(total);
    for (std::size_t i = 0; i < total; ++i) order[i] = i;
    if (swap_order) for (std::size_t i = total; i-- > 1;) std::swap(order[i], order[r.size(0, i)]);
    for (auto i : order) { s.matches.emplace_back(i, perm[i]); s.inlier.push_back(i < n); }
    return s;
}
VP_SECTION("robust", 160, 2500)
{
    const std::size_t n = r.chance(0.04) ? r.size(31, 200) : r.size(12, 30), bad = r.size(0, n / 2);
    const auto s = scene(r, n, bad, true);
    const bool msac = r.chance(0.6);
    const double thr = r.real(1, 4);
    c.describe(n, " inliers ", bad, " outliers scale ", s.sx, ",", s.sy, " shear ", s.hx, ",", s.hy, " shift ", s.tx, ",", s.ty, msac ? " MSAC " : " RANSAC ", thr);
    Quiet q;
    const auto seed = (unsigned)r.next();
    const auto method = msac ? TinyDIP::RobustEstimatorMethod::MSAC : TinyDIP::RobustEstimatorMethod::RANSAC;
    std::mt19937 g1(seed), g2(seed);
    const auto H = TinyDIP::find_homography_robust<double>(s.k1, s.k2, s.matches, g1, method, 250, thr);
    const auto again = TinyDIP::find_homography_robust<double>(s.k1, s.k2, s.matches, g2, method, 250, thr);
    require(showm(H) == showm(again), "robust/repeatable", "the same generator gave another result");
    std::size_t ok = 0;
    auto err = [&](const la::Matrix<double>& M, std::size_t i) {
        LD u, v, w; project(M, (double)s.k1[s.matches[i].first].p[0], (double)s.k1[s.matches[i].first].p[1], u, v, w);
        return (double)std::hypot(u - s.k2[s.matches[i].second].p[0], v - s.k2[s.matches[i].second].p[1]);
    };
    for (std::size_t i = 0; i < s.matches.size(); ++i) if (s.inlier[i]) { if (err(H, i) < thr) ++ok; }
    require(ok == n, "robust/inliers", ok, " of ", n, " true correspondences agree with the result within ", thr);
    const auto R = TinyDIP::refine_homography<double>(s.k1, s.k2, s.matches, H, thr);
    for (std::size_t i = 0; i < s.matches.size(); ++i) if (s.inlier[i])
        require(err(R, i) < 0.1, "robust/refined", "a true correspondence is ", err(R, i), " pixels off after refinement");
    event("robust_models"); event("outliers_rejected", bad);
    const la::Matrix<double> none;
    require(TinyDIP::refine_homography<double>(s.k1, s.k2, s.matches, none, thr).empty(), "robust/empty", "an empty homography was refined");
    if (r.chance(0.3))
    {
        auto few = s.matches; few.resize(r.size(0, 3));
        std::mt19937 g(seed);
        const auto Z = TinyDIP::find_homography_robust<double>(s.k1, s.k2, few, g, method, 50, thr);
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) require(Z.at(i, j) == 0, "robust/too-few", few.size(), " matches gave a model");
        event("too_few_matches");
    }
}
VP_SECTION("refine_all_inliers", 300, 5000)
{
    // a rough initial guess is replaced by the model of every correspondence within the threshold, and of no other
    const std::size_t n = r.chance(0.04) ? r.size(31, 200) : r.size(6, 30), bad = r.size(1, 12);
    const auto s = scene(r, n, bad, true);
    c.describe(n, "+", bad, " scale ", s.sx, ",", s.sy, " shear ", s.hx, ",", s.hy, " shift ", s.tx, ",", s.ty);
    Quiet q;
    const double off = r.real(-1.5, 1.5);
    const auto H0 = mat({ (double)s.sx, (double)s.hx, (double)s.tx + off, (double)s.hy, (double)s.sy, (double)s.ty - off, 0, 0, 1 });
    const auto R = TinyDIP::refine_homography<double>(s.k1, s.k2, s.matches, H0, 3.0);
    // degenerate: all inliers (nearly) collinear
    for (std::size_t i = 0; i < s.matches.size(); ++i) if (s.inlier[i])
    {
        LD u, v, w; project(R, (double)s.k1[s.matches[i].first].p[0], (double)s.k1[s.matches[i].first].p[1], u, v, w);
        const double e = (double)std::hypot(u - s.k2[s.matches[i].second].p[0], v - s.k2[s.matches[i].second].p[1]);
        require(e < 0.2, "refine/inlier", "a correspondence within the threshold is ", e, " pixels off after refinement");
    }
    event("refinements");
    const auto far = mat({ 1, 0, 5000, 0, 1, 5000, 0, 0, 1 });
    require(showm(TinyDIP::refine_homography<double>(s.k1, s.k2, s.matches, far, 3.0)) == showm(far), "refine/no-inliers", "a guess without inliers was changed");
}
VP_SECTION("scaling", 600, 10000)
{
    la::Matrix<double> H(3, 3);
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) H.at(i, j) = r.real(-2, 2);
    std::size_t v[8]; for (auto& x : v) x = r.size(10, 2000);
    c.describe(showm(H), v[0], " ", v[2], " ", v[5], " ", v[7]);
    const auto S = TinyDIP::scale_homography<double>(H, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]);
    const LD rowf[3] = { (LD)v[6] / v[4], (LD)v[7] / v[5], 1 }, colf[3] = { (LD)v[0] / v[2], (LD)v[1] / v[3], 1 };
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) require(close(S.at(i, j), (double)(rowf[i] * H.at(i, j) * colf[j]), 1e-12, 1e-12), "scale_homography", "entry ", i, ",", j);
    event("scalings");
}

// ---- warping, observed through a recording interpolator -------------------------------------------------------
struct Probe { double x, y; };
template<class T> struct Recorder
{
    std::vector<Probe>* log; std::mutex* m;
    T operator()(const Image<T>& im, double x, double y) const
    {
        std::lock_guard<std::mutex> g(*m);
        log->push_back({ x, y });
        T t{};
        const std::size_t id = log->size(); // 1-based ticket, written into the pixel
        if constexpr (multi<T>) { t.channels[0] = (std::uint8_t)id; t.channels[1] = (std::uint8_t)(id >> 8); t.channels[2] = (std::uint8_t)(id >> 16); }
        else t = (T)id;
        (void)im;
        return t;
    }
};
static la::Matrix<double> rnd_h0(Rng& r)
{
    if (r.chance(0.2)) return mat({ 1, 0, (double)r.range(-5, 5), 0, 1, (double)r.range(-5, 5), 0, 0, 1 });
    const double a = r.real(-0.6, 0.6), s = r.real(0.6, 1.6);
    return mat({ s * std::cos(a) + r.real(-0.1, 0.1), -s * std::sin(a), r.real(-8, 8), s * std::sin(a), s * std::cos(a) + r.real(-0.1, 0.1), r.real(-8, 8), r.real(-0.003, 0.003), r.real(-0.003, 0.003), r.chance(0.8) ? 1.0 : r.real(0.5, 2) });
}
// a homography is the same mapping whatever its overall factor, also a negative one (powers of two keep it exact)
static la::Matrix<double> rnd_h(Rng& r)
{
    auto H = rnd_h0(r);
    if (r.chance(0.35)) { const double k = r.pick(std::vector<double>{ -1, -2, 4, 0.5, -0.25 }); for (int i = 0; i < 9; ++i) H.at(i / 3, i % 3) *= k; event("scaled_homographies"); }
    return H;
}
template<class T> void warp(Rng& r, Case& c, const char* tn)
{
    const Sz s = rnd_size2(r, 20); const std::size_t ow = rnd_extent(r, 25), oh = rnd_extent(r, 25);
    const auto im = rnd_image<T>(r, s);
    auto H = rnd_h(r);
    if (r.chance(0.2)) { H.at(2, 0) = r.real(-0.2, 0.2); H.at(2, 1) = r.real(-0.2, 0.2); event("horizon_in_view"); }
    const bool inverse = r.chance(0.5);
    const int pol = (int)r.range(0, 3);
    c.describe(tn, " ", shows(s), " to ", ow, "x", oh, " H ", showm(H), inverse ? cat(" with ", policy_name(pol)) : std::string(" plain"));
    Pure<T> pure(im, "warp");
    std::vector<Probe> log; std::mutex m;
    Quiet q;
    Image<T> out;
    TinyDIP::warp_perspective<T, double, Recorder<T>> wp;
    // with a policy the matrix maps source to destination and is inverted; without, it maps destination to source
    if (inverse) with_policy(pol, [&](auto&& p) { out = wp(p, im, H, ow, oh, Recorder<T>{ &log, &m }); });
    else out = wp(im, H, ow, oh, Recorder<T>{ &log, &m });
    require(out.getWidth() == ow && out.getHeight() == oh, "warp/shape", "wrong output size");
    require(log.size() == ow * oh, "warp/count", log.size(), " source points for ", ow * oh, " pixels");
    la::Matrix<double> M = H;
    if (inverse)
    {
        LD A[3][3]; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) A[i][j] = H.at(i, j);
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) // adjugate: homographies are equal up to scale
        {
            const int a = (j + 1) % 3, b = (j + 2) % 3, x = (i + 1) % 3, y = (i + 2) % 3;
            M.at(i, j) = (double)(A[a][x] * A[b][y] - A[a][y] * A[b][x]);
        }
    }
    std::vector<bool> seen(log.size(), false);
    for (std::size_t y = 0; y < oh; ++y) for (std::size_t x = 0; x < ow; ++x)
    {
        std::size_t id;
        const T px = out.at(x, y);
        if constexpr (multi<T>) id = px.channels[0] | (std::size_t)px.channels[1] << 8 | (std::size_t)px.channels[2] << 16; else id = (std::size_t)px;
        require(id >= 1 && id <= log.size() && !seen[id - 1], "warp/assignment", "pixel ", x, ",", y, " holds the result of no source point or of another pixel's");
        seen[id - 1] = true;
        LD u, v, w; project(M, (double)x, (double)y, u, v, w);
        if (std::fabs(w) < 1e-4L) continue;
        require(close(log[id - 1].x, (double)u, 1e-7, 1e-7) && close(log[id - 1].y, (double)v, 1e-7, 1e-7), "warp/position", "pixel ", x, ",", y, " is taken from ", log[id - 1].x, ",", log[id - 1].y, " instead of ", (double)u, ",", (double)v);
        event("warped_pixels");
    }
    const la::Matrix<double> none;
    log.clear();
    const auto e1 = wp(im, none, ow, oh, Recorder<T>{ &log, &m });
    const auto e2 = wp(std::execution::seq, im, none, ow, oh, Recorder<T>{ &log, &m });
    require(log.empty(), "warp/empty", "an empty homography sampled the image");
    const Ref<T> blank(Sz{ ow, oh });
    expect(e1, blank, "warp/empty"); expect(e2, blank, "warp/empty");
    pure.check();
}
VP_SECTION("warp_rgb", 700, 10000) { warp<RGB>(r, c, "RGB"); }
VP_SECTION("warp_double", 700, 10000) { warp<double>(r, c, "double"); }

// ---- stitching --------------------------------------------------------------------------------------------------
static RGB colour(double x, double y, double w, double h) { return RGB{ { (std::uint8_t)(20 + 200 * x / w), (std::uint8_t)(20 + 200 * y / h), 90 } }; }
struct Smooth
{
    RGB operator()(const Image<RGB>& im, double x, double y) const
    {
        const double w = (double)im.getWidth(), h = (double)im.getHeight();
        if (!(x >= 0 && y >= 0 && x <= w - 1 && y <= h - 1)) return RGB{ { 0, 0, 0 } };
        return colour(x, y, w, h);
    }
};
VP_SECTION("stitch", 500, 8000)
{
    Sz s1{ r.size(3, 24), r.size(3, 24) }, s2{ r.size(3, 24), r.size(3, 24) };
    if (r.chance(0.03)) { (r.chance(0.5) ? s1 : s2)[r.size(0, 1)] = r.size(65, 280); event("long_views"); }
    const auto i1 = rnd_image<RGB>(r, s1), i2 = rnd_image<RGB>(r, s2);
    const bool shift = r.chance(0.4);
    const auto H = shift ? mat({ 1, 0, (double)r.range(-20, 20), 0, 1, (double)r.range(-20, 20), 0, 0, 1 }) : rnd_h(r);
    const int pol = (int)r.range(0, 3);
    c.describe(shows(s1), " and ", shows(s2), " H ", showm(H));
    Pure<RGB> p1(i1, "stitch"), p2(i2, "stitch");
    Quiet q;
    LD A[3][3], B[3][3]; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) A[i][j] = H.at(i, j);
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { const int a = (j + 1) % 3, b = (j + 2) % 3, x = (i + 1) % 3, y = (i + 2) % 3; B[i][j] = A[a][x] * A[b][y] - A[a][y] * A[b][x]; }
    LD minx = 0, maxx = (LD)s1[0], miny = 0, maxy = (LD)s1[1];
    for (LD x : { (LD)0, (LD)s2[0] - 1 }) for (LD y : { (LD)0, (LD)s2[1] - 1 })
    {
        const LD w = B[2][0] * x + B[2][1] * y + B[2][2];
        const LD u = (B[0][0] * x + B[0][1] * y + B[0][2]) / w, v = (B[1][0] * x + B[1][1] * y + B[1][2]) / w;
        minx = std::min(minx, u); maxx = std::max(maxx, u); miny = std::min(miny, v); maxy = std::max(maxy, v);
    }
    // sizes and offsets are whole numbers taken of these: stay away from the steps
    auto near_step = [&](LD v) { return std::fabs(v - std::round(v)) < 1e-7L; };
    if (!shift && ((minx < 0 && near_step(minx)) || (miny < 0 && near_step(miny)) || (near_step(maxx - minx) && !(minx == 0 && maxx == (LD)s1[0])) || (near_step(maxy - miny) && !(miny == 0 && maxy == (LD)s1[1])))) { c.trivial = true; return; }
    if (maxx - minx > 400 || maxy - miny > 400) { c.trivial = true; return; }
    const LD tx = -minx, ty = -miny;
    const std::size_t ow = (std::size_t)std::ceil((double)(maxx - minx)), oh = (std::size_t)std::ceil((double)(maxy - miny));
    Image<RGB> plain = TinyDIP::create_stitched_image<double, Smooth>(i1, i2, H, TinyDIP::warp_perspective<RGB, double, Smooth>{}, Smooth{});
    Image<RGB> with;
    with_policy(pol, [&](auto&& p) { with = TinyDIP::create_stitched_image<decltype(p), double, std::remove_cvref_t<decltype(p)>, Smooth>(p, i1, i2, H, TinyDIP::warp_perspective<RGB, double, Smooth>{}, Smooth{}); });
    for (const auto* o : { &plain, &with })
    {
        const char* who = o == &plain ? "stitch" : "stitch-policy";
        require(o->getWidth() == ow && o->getHeight() == oh, std::string(who) + "/canvas", o->getWidth(), "x", o->getHeight(), " instead of ", ow, "x", oh);
        for (std::size_t y = 0; y < oh; ++y) for (std::size_t x = 0; x < ow; ++x)
        {
            const LD cx = (LD)x - tx, cy = (LD)y - ty;
            const LD w = A[2][0] * cx + A[2][1] * cy + A[2][2];
            if (std::fabs(w) < 1e-3L) continue;
            const LD u = (A[0][0] * cx + A[0][1] * cy + A[0][2]) / w, v = (A[1][0] * cx + A[1][1] * cy + A[1][2]) / w;
            const LD bw = (LD)s2[0] - 1, bh = (LD)s2[1] - 1;
            auto edge = [](LD p, LD b) { return std::fabs(p) < 1e-6L || std::fabs(p - b) < 1e-6L; };
            if (!shift && (edge(u, bw) || edge(v, bh))) continue;
            const bool in2 = u >= 0 && v >= 0 && u <= bw && v <= bh;
            const std::size_t fx = (std::size_t)(double)tx, fy = (std::size_t)(double)ty;
            const bool in1 = x >= fx && y >= fy && x < (std::size_t)(double)(tx + (LD)s1[0]) && y < (std::size_t)(double)(ty + (LD)s1[1]);
            double want[3] = { 0, 0, 0 };
            const RGB c2 = in2 ? colour((double)u, (double)v, (double)s2[0], (double)s2[1]) : RGB{ { 0, 0, 0 } };
            std::size_t qx = cx < 0 ? 0 : (std::size_t)(double)cx, qy = cy < 0 ? 0 : (std::size_t)(double)cy;
            if (in1)
            {
                qx = std::min(qx, s1[0] - 1); qy = std::min(qy, s1[1] - 1);
                const double al = in2 ? (double)qx / (double)s1[0] : 0;
                for (int k = 0; k < 3; ++k) want[k] = i1.at(qx, qy).channels[k] * (1 - al) + c2.channels[k] * al;
                event(in2 ? "blended" : "from_first");
            }
            else if (in2) { for (int k = 0; k < 3; ++k) want[k] = c2.channels[k]; event("from_second"); }
            else event("background");
            for (int k = 0; k < 3; ++k)
                require(std::fabs((double)o->at(x, y).channels[k] - want[k]) <= (in1 && !in2 ? 0.0 : 2.0), std::string(who) + "/pixel", "at ", x, ",", y, " channel ", k, " got ", +o->at(x, y).channels[k], " want ", want[k], in1 ? " (first" : " (", in2 ? " second)" : ")");
        }
    }
    expect_same(with, plain, "stitch/overloads-agree", 0, 3);
    const la::Matrix<double> none, sing = mat({ 1, 2, 3, 2, 4, 6, 0, 0, 1 });
    require(TinyDIP::create_stitched_image<double>(i1, i2, none).getImageData().empty() && TinyDIP::create_stitched_image<double>(i1, i2, sing).getImageData().empty(), "stitch/no-homography", "an unusable homography gave an image");
    p1.check(); p2.check();
}
