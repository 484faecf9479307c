// C11: rotations.
#define VP_NO_MAIN
#include "img.hpp"
#include "image_operations.h"
using namespace vp;

template<class T> Ref<T> ref_quarter(const Ref<T>& a)
{
    Ref<T> o({ a.h(), a.w() });
    for (std::size_t y = 0; y < a.h(); ++y) for (std::size_t x = 0; x < a.w(); ++x) o(a.h() - 1 - y, x) = a(x, y);
    return o;
}
template<class T> void quarter(Rng& r, Case& c, const char* tn)
{
    const Sz s = rnd_size2(r, 20);
    const int k = (int)r.range(-6, 6);
    c.describe(tn, " ", shows(s), " turns=", k);
    const auto im = rnd_image<T>(r, s);
    Pure<T> pure(im, "quarter");
    auto want = snap(im);
    for (int i = 0; i < ((k % 4) + 4) % 4; ++i) want = ref_quarter(want);
    expect(TinyDIP::rotate_degree(im, (double)(90 * k)), want, "rotate_degree");
    expect(TinyDIP::rotate_degree(im, 90 * k), want, "rotate_degree-int");
    const int q = ((k % 4) + 4) % 4;
    if (q < 2) expect(TinyDIP::rotate_detail_shear_transformation_degree(im, 90.0 * q), q ? ref_quarter(snap(im)) : snap(im), "shear-quarter");
    pure.check();
    event("quarter_turns");
    c.trivial = product(s) == 1;
}
VP_SECTION("quarter_u8", 500, 12000) { quarter<std::uint8_t>(r, c, "u8"); }
VP_SECTION("quarter_double", 500, 12000) { quarter<double>(r, c, "double"); }

// rotation by any angle: inverse mapping about the centres with an interpolator chosen by the caller
VP_SECTION("any_angle", 400, 8000)
{
    const Sz s = rnd_size2(r, 16);
    double deg;
    switch (r.range(0, 4))
    {
    case 0: deg = (double)r.range(-8, 8) * 45.0; break;
    case 1: deg = (double)r.range(-720, 720); break;
    case 2: deg = r.real(-1, 1); break;
    default: deg = r.real(-400, 400); break;
    }
    const double rad = deg * 3.14159265358979323846 / 180.0;
    c.describe(shows(s), " degrees=", deg);
    const auto im = rnd_image<double>(r, s);
    Pure<double> pure(im, "any_angle");
    std::vector<std::pair<double, double>> calls;
    auto record = [&](const Image<double>& i, double x, double y) { calls.emplace_back(x, y); return TinyDIP::bilinear_interpolate(i, x, y); };
    const auto got = TinyDIP::rotate_detail_shear_transformation(im, rad, record);
    double m = std::fmod(rad, 2 * M_PI);
    if (m < 0) m += 2 * M_PI;
    const double cs = std::cos(m), sn = std::sin(m);
    const double W = s[0], H = s[1];
    const double fw = std::fabs(W * cs) + std::fabs(H * sn), fh = std::fabs(H * cs) + std::fabs(W * sn);
    const double gw = got.getWidth(), gh = got.getHeight();
    require(gw >= fw - 1e-6 && gw < fw + 1 + 1e-6 && gh >= fh - 1e-6 && gh < fh + 1 + 1e-6, "any_angle/size",
        "rotated canvas is ", gw, "x", gh, ", expected to just hold ", fw, "x", fh);
    if (!calls.empty())
    {
        std::size_t i = 0;
        require(calls.size() == got.count(), "any_angle/calls", "interpolator called ", calls.size(), " times for ", got.count(), " pixels");
        for (std::size_t y = 0; y < got.getHeight(); ++y) for (std::size_t x = 0; x < got.getWidth(); ++x, ++i)
        {
            const double xp = x - (gw - 1) / 2, yp = y - (gh - 1) / 2;
            const double xs = xp * cs + yp * sn + (W - 1) / 2, ys = -xp * sn + yp * cs + (H - 1) / 2;
            // locate the call for this pixel without assuming an order of evaluation
            const auto [cx, cy] = calls[i];
            bool ok = std::fabs(cx - xs) < 1e-6 && std::fabs(cy - ys) < 1e-6;
            if (!ok) for (const auto& q : calls) if (std::fabs(q.first - xs) < 1e-6 && std::fabs(q.second - ys) < 1e-6) { ok = true; break; }
            require(ok, "any_angle/mapping", "no sample taken at (", xs, ",", ys, ") for output pixel (", x, ",", y, ")");
            // bilinear is continuous inside; on the border of the source a rounding error decides, so skip a thin band there
            const double bx = std::min(std::fabs(xs), std::fabs(xs - (W - 1))), by = std::min(std::fabs(ys), std::fabs(ys - (H - 1)));
            if (bx < 1e-6 || by < 1e-6) continue;
            double want = 0;
            if (xs > 0 && xs < W - 1 && ys > 0 && ys < H - 1)
            {
                const std::size_t x0 = (std::size_t)xs, y0 = (std::size_t)ys, x1 = std::min<std::size_t>(x0 + 1, s[0] - 1), y1 = std::min<std::size_t>(y0 + 1, s[1] - 1);
                const double fx = xs - x0, fy = ys - y0;
                want = (im.at(x0, y0) * (1 - fx) + im.at(x1, y0) * fx) * (1 - fy) + (im.at(x0, y1) * (1 - fx) + im.at(x1, y1) * fx) * fy;
            }
            require(close(got.at(x, y), want, 1e-6, 1e-3), "any_angle/value", "pixel (", x, ",", y, ") is ", got.at(x, y), ", expected ", want);
            event("rotated_pixels");
        }
    }
    else expect_same(got, m == 0 ? im : to_image(ref_quarter(snap(im))), "any_angle/exact");
    pure.check();
}

// rotate by an angle that is no quarter turn: each pixel goes, turned about the centre and shrunk until the longer way
// fits, into the cell it falls in; nothing else is set
VP_SECTION("turned_within", 300, 6000)
{
    const Sz s = rnd_size2(r, 18);
    const int q = (int)r.range(-4, 4);
    const double deg = r.chance(0.3) ? (double)r.range(1, 89) : r.real(0.01, 89.99), full = deg + 90.0 * q;
    c.describe(shows(s), " degrees=", full);
    Image<double> im(s);
    for (std::size_t i = 0; i < im.count(); ++i) im.set(i) = (double)(i + 1);
    Pure<double> pure(im, "turned_within");
    auto src = snap(im);
    for (int i = 0; i < ((q % 4) + 4) % 4; ++i) src = ref_quarter(src);
    const auto got = TinyDIP::rotate_degree(im, full);
    const std::size_t W = src.w(), H = src.h();
    require(got.getWidth() == W && got.getHeight() == H, "rotate/size", "the canvas became ", got.getWidth(), "x", got.getHeight());
    const double t = deg * 3.14159265358979323846 / 180.0, cs = std::cos(t), sn = std::sin(t);
    const double shrink = W > H ? (double)H / (W * sn + H * cs) : (double)W / (W * cs + H * sn);
    std::vector<char> reached(W * H, 0), sure(W * H, 0);
    for (std::size_t y = 0; y < H; ++y) for (std::size_t x = 0; x < W; ++x)
    {
        const double dx = x - W / 2.0, dy = y - H / 2.0;
        const double px = shrink * (dx * cs - dy * sn) + W / 2.0, py = shrink * (dx * sn + dy * cs) + H / 2.0;
        // the cells it may fall in, given rounding
        bool in = false; int cells = 0; std::size_t cell = 0;
        for (double ex : { -1e-7, 1e-7 }) for (double ey : { -1e-7, 1e-7 })
        {
            const long long cx = (long long)(px + ex), cy = (long long)(py + ey);
            if (cx < 0 || cy < 0 || cx >= (long long)W || cy >= (long long)H) continue;
            const std::size_t k = (std::size_t)cy * W + (std::size_t)cx;
            if (!cells || cell != k) ++cells;
            cell = k; reached[k] = 1; in = true;
        }
        if (in && cells == 1) sure[cell] = 1;
    }
    for (std::size_t y = 0; y < H; ++y) for (std::size_t x = 0; x < W; ++x)
    {
        const double v = got.at(x, y);
        const std::size_t k = y * W + x;
        if (v == 0) { require(!sure[k], "rotate/lost", "no pixel arrived at ", x, ",", y); continue; }
        require(reached[k], "rotate/spill", "a value appeared at ", x, ",", y, " where no pixel goes");
        std::size_t sx = W, sy = H;
        for (std::size_t b = 0; b < H && sx == W; ++b) for (std::size_t a = 0; a < W; ++a) if (src(a, b) == v) { sx = a; sy = b; break; }
        require(sx < W, "rotate/value", "value ", v, " at ", x, ",", y, " is of no pixel");
        const double dx = sx - W / 2.0, dy = sy - H / 2.0;
        const double px = shrink * (dx * cs - dy * sn) + W / 2.0, py = shrink * (dx * sn + dy * cs) + H / 2.0;
        require(px >= x - 1e-6 - (x == 0) && px < x + 1 + 1e-6 && py >= y - 1e-6 - (y == 0) && py < y + 1 + 1e-6, "rotate/place", "pixel ", sx, ",", sy, " arrived at ", x, ",", y, " instead of ", px, ",", py);
        event("turned_pixels");
    }
    pure.check();
    c.trivial = W * H == 1;
}
