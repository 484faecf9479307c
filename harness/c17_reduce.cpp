// C17: whole-image reductions, predicates, statistics and distances against plain loops.
#include "img.hpp"
#include "image_operations.h"
using namespace vp;
namespace td = TinyDIP;
using ld = long double;

template<class T> Sz any_shape(Rng& r)
{
    if (big_images) return rnd_size2(r);
    Sz s;
    for (std::size_t d = r.size(1, 3); d--;) s.push_back(rnd_extent(r, 9));
    if (r.chance(0.05)) s = { r.size(30, 90), r.size(30, 90) };
    return s;
}
template<class T> Image<T> few_values(Rng& r, const Sz& s)
{
    Image<T> im(s);
    const int mode = (int)r.range(0, 5);
    const T k = rnd_value<T>(r);
    for (auto& x : im.getImageData())
    {
        if (mode == 0) x = k;
        else if (mode == 1) x = (T)r.range(0, 2);
        else if (mode == 2) x = (T)r.range(1, 4);
        else if (mode == 3 && std::is_signed_v<T>) x = (T)r.range(-4, -1);
        else x = rnd_value<T>(r);
    }
    return im;
}
template<class T> void scalar(Rng& r, Case& c, const char* tn)
{
    const Sz s = any_shape<T>(r);
    c.describe(tn, " ", shows(s));
    c.trivial = product(s) == 1;
    const auto im = few_values<T>(r, s);
    const auto a = snap(im);
    Pure<T> pure(im, "reduce");
    const int w = (int)r.range(0, 3);
    // order statistics
    T lo = a.d[0], hi = a.d[0];
    for (auto x : a.d) { lo = std::min(lo, x); hi = std::max(hi, x); }
    require(td::min(im) == lo, "min", "got ", showv(td::min(im)), " want ", showv(lo));
    require(td::max(im) == hi, "max", "got ", showv(td::max(im)), " want ", showv(hi));
    const auto mm = td::minmax(im);
    require(mm.min == lo && mm.max == hi, "minmax", "got ", showv(mm.min), ",", showv(mm.max));
    auto sorted = a.d; std::sort(sorted.begin(), sorted.end());
    require(td::sort(im) == sorted, "sort", "not the sorted elements");
    // sums
    if constexpr (!std::is_same_v<T, std::uint8_t>)
    {
        ld sum = 0, mag = 0;
        for (auto x : a.d) { sum += (ld)x; mag += std::fabs((double)x); }
        const double tol = std::is_floating_point_v<T> ? std::max(1e-12, 2.3e-16 * (double)a.d.size()) * (double)mag : 0; // n additions, in any order
        require(std::fabs((double)((ld)td::sum(im) - sum)) <= tol, "sum", "got ", td::sum(im), " want ", (double)sum);
        with_policy(w, [&](auto&& p) { const auto g = td::sum(p, im); require(std::fabs((double)((ld)g - sum)) <= tol, cat("sum-", policy_name(w)), "got ", g, " want ", (double)sum); });
        if constexpr (std::is_floating_point_v<T>)
        {
            require(close((double)td::mean(im), (double)(sum / (ld)a.d.size()), 1e-11, tol), "mean", "got ", td::mean(im));
            with_policy(w, [&](auto&& p) { require(close((double)td::mean(p, im), (double)(sum / (ld)a.d.size()), 1e-11, tol), cat("mean-", policy_name(w)), "got ", td::mean(p, im)); });
        }
        const T first = td::sum(im, [](T x, T y) { return std::max(x, y); });
        require(first == std::max(hi, T{}), "sum-function", "reduction by max gave ", showv(first));
    }
    event("reduced", a.d.size());
    // counting, replacing
    const T target = r.chance(0.6) ? a.d[r.size(0, a.d.size() - 1)] : rnd_value<T>(r), put = rnd_value<T>(r);
    std::size_t n = 0;
    for (auto x : a.d) n += x == target;
    require((std::size_t)td::count(im, target) == n, "count", "got ", td::count(im, target), " want ", n);
    with_policy(w, [&](auto&& p) { require((std::size_t)td::count(p, im, target) == n, cat("count-", policy_name(w)), "got ", td::count(p, im, target), " want ", n); });
    require(td::unique_value(im, target) == (n == 1), "unique_value", "count ", n);
    Ref<T> rep = a;
    for (auto& x : rep.d) if (x == target) x = put;
    expect(td::replace(im, target, put), rep, "replace");
    with_policy(w, [&](auto&& p) { expect(td::replace(p, im, target, put), rep, cat("replace-", policy_name(w))); });
    event("counted", n); event("replacements", n);
    // predicates
    auto P = [&](auto f) { std::size_t k = 0; for (auto x : a.d) k += f(x); return k; };
    const std::size_t N = a.d.size();
    auto tri = [&](bool all, bool any, bool none, std::size_t k, const char* name)
    {
        require(all == (k == N), cat("all_of/", name), k, " of ", N, " satisfy, all is ", all);
        require(any == (k > 0), cat("any_of/", name), k, " of ", N, " satisfy, any is ", any);
        require(none == (k == 0), cat("none_of/", name), k, " of ", N, " satisfy, none is ", none);
        event(k == 0 ? "pred_none" : k == N ? "pred_all" : "pred_some");
    };
    auto custom = [&](const T& x) { return x == target; };
    tri(td::all_of(im, custom), td::any_of(im, custom), td::none_of(im, custom), P(custom), "predicate");
    tri(td::all_positive(im), td::any_positive(im), td::none_positive(im), P([](T x) { return x > 0; }), "positive");
    tri(td::all_non_negative(im), td::any_non_negative(im), td::none_non_negative(im), P([](T x) { return x >= 0; }), "nonnegative");
    tri(td::all_zero(im), td::any_zero(im), td::none_zero(im), P([](T x) { return x == 0; }), "zero");
    tri(td::all_negative(im), td::any_negative(im), td::none_negative(im), P([](T x) { return x < 0; }), "negative");
    tri(td::all_non_positive(im), td::any_non_positive(im), td::none_non_positive(im), P([](T x) { return x <= 0; }), "nonpositive");
    pure.check();
}
VP_SECTION("scalar_u8", 800, 20000) { scalar<std::uint8_t>(r, c, "u8"); }
VP_SECTION("scalar_int", 800, 20000) { scalar<int>(r, c, "int"); }
VP_SECTION("scalar_double", 800, 20000) { scalar<double>(r, c, "double"); }
VP_SECTION("large_u8", 3, 40) { Big big; scalar<std::uint8_t>(r, c, "u8"); }
VP_SECTION("large_double", 2, 30) { Big big; scalar<double>(r, c, "double"); }

template<class T> void distances(Rng& r, Case& c, const char* tn)
{
    const Sz s = any_shape<T>(r);
    c.describe("distance ", tn, " ", shows(s));
    const auto x = few_values<T>(r, s), y = few_values<T>(r, s);
    Pure<T> px(x, "distance"), py(y, "distance");
    const auto a = snap(x), b = snap(y);
    ld man = 0, sq = 0;
    for (std::size_t i = 0; i < a.d.size(); ++i) { const ld d = (ld)a.d[i] - (ld)b.d[i]; man += std::fabs((double)d); sq += d * d; }
    const double tol = 1e-10;
    require(close((double)td::manhattan_distance(x, y), (double)man, tol, tol), "manhattan_distance", "got ", (double)td::manhattan_distance(x, y), " want ", (double)man);
    const double eu = (double)std::sqrt(sq);
    require(close((double)td::euclidean_distance(x, y), eu, tol, tol), "euclidean_distance", "got ", td::euclidean_distance(x, y), " want ", eu);
    const int w = (int)r.range(0, 3);
    with_policy(w, [&](auto&& p) { require(close((double)td::euclidean_distance(p, x, y), eu, tol, tol), cat("euclidean_distance-", policy_name(w)), "got ", td::euclidean_distance(p, x, y), " want ", eu); });
    if constexpr (std::is_floating_point_v<T> || std::is_same_v<T, int>)
    {
        td::squared_euclidean_distance f;
        require(close((double)f(a.d, b.d), (double)sq, tol, tol), "squared_euclidean_distance", "got ", f(a.d, b.d), " want ", (double)sq);
        with_policy(w, [&](auto&& p) { require(close((double)f(p, a.d, b.d), (double)sq, tol, tol), "squared_euclidean_distance-policy", "want ", (double)sq); });
        auto longer = a.d; longer.push_back(T{});
        require(throws([&] { f(longer, b.d); }) && throws([&] { f(a.d, longer); }) && throws([&] { f(std::execution::seq, longer, b.d); }), "squared_euclidean_distance/size", "ranges of different lengths accepted");
    }
    Sz s2 = s; s2[r.size(0, s.size() - 1)] += 1;
    const auto z = few_values<T>(r, s2);
    require(throws([&] { td::euclidean_distance(x, z); }), "euclidean_distance/size", "images of different sizes accepted");
    require(throws([&] { td::manhattan_distance(x, z); }), "manhattan_distance/size", "images of different sizes accepted");
    std::array<T, 5> p{}, q{};
    ld sp = 0;
    for (int i = 0; i < 5; ++i) { p[i] = rnd_value<T>(r); q[i] = rnd_value<T>(r); sp += ((ld)p[i] - (ld)q[i]) * ((ld)p[i] - (ld)q[i]); }
    require(close(td::euclidean_distance(p, q), (double)std::sqrt(sp), tol, tol), "euclidean_distance-array", "got ", td::euclidean_distance(p, q));
    require(close(td::euclidean_distance(std::execution::par, p, q), (double)std::sqrt(sp), tol, tol), "euclidean_distance-array-par", "want ", (double)std::sqrt(sp));
    px.check(); py.check();
    event("distances");
}
VP_SECTION("distances_u8", 500, 10000) { distances<std::uint8_t>(r, c, "u8"); }
VP_SECTION("distances_int", 300, 10000) { distances<int>(r, c, "int"); }
VP_SECTION("distances_double", 500, 10000) { distances<double>(r, c, "double"); }
VP_SECTION("large_distances", 3, 40) { Big big; distances<std::uint8_t>(r, c, "u8"); }
