// part 3 of C27: pow, colour values, complex channels, distributions
#define VP_NO_MAIN
#include "c27_math.hpp"
#include "image_operations.h"
using C = std::complex<double>;
VP_SECTION("pow", 600, 8000)
{
    const auto v = value<MultiChannel<double, 4>>(r);
    const double e = r.pick(std::vector<double>{ 0, 1, 2, 0.5, -1, 3, -0.5, r.real(-4, 4) });
    c.describe(v.channels[0], " ", v.channels[1], " exponent ", e);
    auto want = [&](auto x) { return std::pow(x, e); };
    channels(v, td::pow(v, e), "pow", want);
    with_policy((int)r.range(0, 3), [&](auto&& p) { channels(v, td::pow(p, v, e), "pow-policy", want); });
    require(bits(td::pow(v.channels[0], e), want(v.channels[0])), "pow-scalar", "of ", v.channels[0]);
    event("pow");
}
VP_SECTION("colours", 600, 8000)
{
    const RGB p = rnd_value<RGB>(r); const HSV h = rnd_value<HSV>(r); RGB_DOUBLE q{}; for (auto& x : q.channels) x = r.real(0, 255);
    c.describe(showv(p), showv(h), showv(q));
    channels(q, td::sqrt(q), "sqrt-RGB_DOUBLE", [](double x) { return std::sqrt(x); });
    channels(h, td::exp(h), "exp-HSV", [](double x) { return std::exp(x); });
    channels(p, td::sqrt(p), "sqrt-RGB", [](auto x) { return std::sqrt((double)x); });
    channels(q, td::floor(std::execution::par, q), "floor-RGB_DOUBLE", [](double x) { return std::floor(x); });
    channels(h, td::sin(std::execution::seq, h), "sin-HSV", [](double x) { return std::sin(x); });
    // any function of the caller's, called once per channel with the further arguments
    std::atomic<int> calls{ 0 };
    channels(q, td::apply_multichannel(q, [&](double x, double k, int m) { ++calls; return x * k + m; }, 1.5, 7), "apply_multichannel", [](double x) { return x * 1.5 + 7; });
    require(calls == 3, "apply_multichannel-calls", calls.load(), " calls for 3 channels");
    const auto m = value<MultiChannel<double, 5>>(r);
    calls = 0;
    with_policy((int)r.range(0, 3), [&](auto&& pol) { channels(m, td::apply_multichannel(pol, m, [&](double x, int k) { ++calls; return x > k; }, 2), "apply_multichannel-policy", [](double x) { return x > 2; }); });
    require(calls == 5, "apply_multichannel-calls", calls.load(), " calls for 5 channels");
    event("colours");
}
VP_SECTION("complex", 500, 6000)
{
    MultiChannel<C, 3> v{};
    for (auto& x : v.channels) x = C(r.real(-4, 4), r.real(-4, 4));
    c.describe(v.channels[0], v.channels[1]);
    channels(v, td::sqrt(v), "sqrt-complex", [](C x) { return std::sqrt(x); });
    channels(v, td::exp(v), "exp-complex", [](C x) { return std::exp(x); });
    channels(v, td::log(v), "log-complex", [](C x) { return std::log(x); });
    channels(v, td::sin(v), "sin-complex", [](C x) { return std::sin(x); });
    channels(v, td::cos(std::execution::par, v), "cos-complex", [](C x) { return std::cos(x); });
    channels(v, td::tanh(v), "tanh-complex", [](C x) { return std::tanh(x); });
    channels(v, td::abs(v), "abs-complex", [](C x) { return std::abs(x); });
    const C z = v.channels[0];
    auto near = [](C a, C b) { return std::abs(a - b) <= 1e-9 * (1 + std::abs(b)); };
    require(near(td::cot(z), C(1) / std::tan(z)) && near(td::sec(z), C(1) / std::cos(z)), "cot-complex", "of ", z);
    event("complex");
}
VP_SECTION("distributions", 500, 6000)
{
    const double x = r.real(-9, 9), y = r.real(-9, 9), s = r.real(0.1, 6);
    const int n = (int)r.range(-9, 9);
    c.describe(x, " ", y, " ", s, " ", n);
    require(close(td::normalDistribution1D(x, s), std::exp(-x * x / (2 * s * s)), 1e-12, 0), "normalDistribution1D", "of ", x, " ", s);
    require(close(td::normalDistribution1D(n, s), std::exp(-(double)n * n / (2 * s * s)), 1e-12, 0), "normalDistribution1D-int", "of ", n, " ", s);
    require(close(td::normalDistribution2D(x, y, s), std::exp(-(x * x + y * y) / (2 * s * s)) / (2 * 3.14159265358979323846 * s * s), 1e-12, 0), "normalDistribution2D", "of ", x, ",", y, " ", s);
    require(close(td::hypot(x, y, s), std::sqrt(x * x + y * y + s * s), 1e-12, 0), "hypot", "of three");
    require(close(td::hypot(x, y), std::sqrt(x * x + y * y), 1e-12, 0), "hypot", "of two");
    require(td::is_integer((double)n) && td::is_integer(n) && td::is_integer(x) == (x == std::floor(x)) && td::is_integer((float)n * 0.5f) == (n % 2 == 0), "is_integer", "of ", x, " or ", n);
    std::vector<std::tuple<int, double, long>> t(r.size(0, 40));
    long a = 0; double b = 0; long e = 5;
    for (auto& [i, d, l] : t) { i = (int)r.range(-50, 50); d = (double)r.range(-50, 50); l = r.range(-50, 50); a += i; b += d; e += l; }
    with_policy((int)r.range(0, 3), [&](auto&& p) { require(td::sum_n_th_element<0>(p, t) == a && td::sum_n_th_element<1>(p, t) == b && td::sum_n_th_element<2>(p, t, 5L) == e, "sum_n_th_element-policy", t.size(), " tuples"); });
    require(td::sum_n_th_element<0>(t) == a && td::sum_n_th_element<2>(t, 5L) == e, "sum_n_th_element", t.size(), " tuples");
    event("distributions");
}
