// C13: fisheye lenses.
#define VP_NO_MAIN
#include "c13_resample.hpp"
using namespace vp;

static ld root(ld r_out, ld D0)
{
    if (r_out <= 0) return 0;
    if (r_out >= D0 * std::exp(-0.5L)) return D0;
    ld lo = 0, hi = D0;
    for (int i = 0; i < 100; ++i) { const ld m = (lo + hi) / 2; (m * std::exp(-m * m / (2 * D0 * D0)) < r_out ? lo : hi) = m; }
    return (lo + hi) / 2;
}
static std::vector<long long> rounded(ld v)
{
    std::vector<long long> o{ (long long)std::round(v) };
    for (ld e : { -1e-6L, 1e-6L }) { const long long k = (long long)std::round(v + e); if (k != o[0]) o.push_back(k); }
    return o;
}
// every acceptable value: the source pixel at the rounded point (either neighbour when it falls half way), the default outside
template<class T> bool acceptable(const Image<T>& im, const T& got, std::size_t x, std::size_t y, ld D0)
{
    const ld W = (ld)im.getWidth(), H = (ld)im.getHeight(), dx = (ld)x - W / 2, dy = (ld)y - H / 2, ro = std::hypot(dx, dy);
    // the lens has a kink where the radius reaches its limit
    for (ld f : { 1.0L, 1 - 1e-12L, 1 + 1e-12L })
    {
        const ld scale = ro == 0 ? 1 : root(ro * f, D0) / ro;
        for (auto sx : rounded(dx * scale + W / 2)) for (auto sy : rounded(dy * scale + H / 2))
        {
            const bool in = sx >= 0 && sy >= 0 && sx < (long long)im.getWidth() && sy < (long long)im.getHeight();
            if (same_value(got, in ? im.at((std::size_t)sx, (std::size_t)sy) : T{}, 0, 0)) return true;
        }
    }
    return false;
}
template<class T> void lens(Rng& r, Case& c, const char* tn)
{
    const Sz s = rnd_size2(r, 24);
    const double D0 = r.chance(0.3) ? (double)r.range(1, 40) : r.real(0.5, 60);
    c.describe(tn, " ", shows(s), " D0 ", D0);
    Image<T> im(s);
    for (std::size_t i = 0; i < product(s); ++i) { if constexpr (multi<T>) im.getImageData()[i] = rnd_value<T>(r); else im.getImageData()[i] = (T)(i + 1); }
    Pure<T> pure(im, "fisheye");
    auto check = [&](const Image<T>& got, const std::string& key)
    {
        require(got.getWidth() == s[0] && got.getHeight() == s[1], key, "shape ", got.getWidth(), "x", got.getHeight());
        for (std::size_t y = 0; y < s[1]; ++y) for (std::size_t x = 0; x < s[0]; ++x)
            require(acceptable(im, got.at(x, y), x, y, (ld)D0), key, "pixel (", x, ",", y, ") is ", showv(got.at(x, y)));
        event("fisheye_pixels", product(s));
    };
    check(TinyDIP::gaussian_fisheye(im, D0), "gaussian_fisheye");
    if constexpr (!multi<T>)
    {
        check(TinyDIP::gaussian_fisheye(std::execution::par, im, D0), "gaussian_fisheye-par");
        if (D0 == std::floor(D0)) check(TinyDIP::gaussian_fisheye(im, (int)D0), "gaussian_fisheye-int");
    }
    pure.check();
}
VP_SECTION("fisheye_int", 400, 8000) { lens<int>(r, c, "int"); }
VP_SECTION("fisheye_double", 300, 8000) { lens<double>(r, c, "double"); }
VP_SECTION("fisheye_rgb", 60, 1500) { lens<RGB>(r, c, "RGB"); }

VP_SECTION("butterworth", 500, 10000)
{
    const Sz s = rnd_size2(r, 20);
    const double D0 = r.real(0.5, 40), N = r.real(0.5, 3);
    c.describe("butterworth ", shows(s), " ", D0, " ", N);
    Image<double> im(s);
    for (std::size_t i = 0; i < product(s); ++i) im.getImageData()[i] = (double)(i + 1);
    Pure<double> pure(im, "butterworth");
    const auto got = TinyDIP::butterworth_fisheye(im, D0, N);
    require(got.getWidth() == s[0] && got.getHeight() == s[1], "butterworth", "shape");
    std::vector<char> must(product(s), 0);
    std::vector<std::set<double>> may(product(s));
    const ld W = (ld)s[0], H = (ld)s[1];
    for (std::size_t y = 0; y < s[1]; ++y) for (std::size_t x = 0; x < s[0]; ++x)
    {
        const ld dx = (ld)x - W / 2, dy = (ld)y - H / 2, d = std::hypot(dx, dy), w = 1 / std::sqrt(1 + std::pow(d / D0, 2 * (ld)N));
        std::set<std::pair<long long, long long>> targets;
        for (ld e : { -1e-9L, 0.0L, 1e-9L }) for (ld g : { -1e-9L, 0.0L, 1e-9L }) targets.insert({ (long long)(dx * w + W / 2 + e), (long long)(dy * w + H / 2 + g) });
        for (auto [tx, ty] : targets) if (tx >= 0 && ty >= 0 && tx < (long long)s[0] && ty < (long long)s[1])
        {
            const std::size_t i = (std::size_t)ty * s[0] + (std::size_t)tx;
            may[i].insert(im.at(x, y));
            if (targets.size() == 1) must[i] = 1;
        }
    }
    for (std::size_t i = 0; i < product(s); ++i)
    {
        const double g = got.getImageData()[i];
        require(may[i].count(g) || (g == 0 && !must[i]), "butterworth", "pixel (", index_of(i, s), ") is ", g);
        if (must[i]) event("butterworth_targets");
    }
    pure.check();
}
