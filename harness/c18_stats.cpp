// C18: statistics over containers, generators of nested containers, channel-wise application.
#define VP_NO_MAIN
#include "vp.hpp"
#include "basic_functions.h"
#include <list>
#include <deque>
#include <execution>
using namespace vp;
namespace td = TinyDIP;
using ld = long double;
VP_SECTION("statistics", 1500, 30000)
{
    std::vector<double> v;
    std::vector<std::vector<double>> vv;
    const std::size_t n = r.chance(0.1) ? r.size(100, 3000) : r.size(1, 30);
    const double shift = r.chance(0.2) ? r.real(-1000, 1000) : 0, spread = r.real(0.1, 100);
    for (std::size_t i = 0; i < n; ++i) v.push_back(shift + r.real(-spread, spread));
    c.describe("statistics of ", n, " around ", shift, " +- ", spread);
    ld s = 0, q = 0, var = 0;
    for (double x : v) { s += x; q += (ld)x * x; }
    const ld m = s / (ld)n;
    for (double x : v) var += ((ld)x - m) * ((ld)x - m);
    var /= (ld)n;
    const double scale = std::fabs(shift) + spread;
    auto eq = [&](double got, ld want, double unit, const char* key) { require(std::fabs((double)(got - want)) <= 1e-10 * unit + 1e-12, key, "got ", got, " want ", (double)want); };
    eq(td::arithmetic_mean(v), m, scale * 10, "arithmetic_mean");
    eq(td::population_variance(v), var, scale * scale, "population_variance");
    eq(td::population_variance(std::execution::seq, v), var, scale * scale, "population_variance-seq");
    eq(td::population_variance(std::execution::par, v), var, scale * scale, "population_variance-par");
    eq(td::population_standard_deviation(std::execution::par, v), std::sqrt(var), scale * 100, "population_standard_deviation");
    eq(td::square_sum(v), q, scale * scale * (double)n, "square_sum");
    eq(td::square_sum(std::execution::par, v), q, scale * scale * (double)n, "square_sum-par");
    eq(td::root_mean_square(v), std::sqrt(q / (ld)n), scale * 100, "root_mean_square");
    eq(td::root_mean_square(std::execution::par, v), std::sqrt(q / (ld)n), scale * 100, "root_mean_square-par");
    const std::vector<double> none;
    require(throws([&] { td::arithmetic_mean(none); }), "arithmetic_mean/empty", "mean of nothing returned");
    require(throws([&] { td::population_variance(none); }), "population_variance/empty", "variance of nothing returned");
    require(throws([&] { td::population_standard_deviation(std::execution::seq, none); }), "population_standard_deviation/empty", "deviation of nothing returned");
    event("statistics", 9); event("empty_rejections", 3);
    // two inputs
    std::vector<double> w;
    for (std::size_t i = 0; i < n; ++i) w.push_back(r.real(-5, 5));
    ld dot = 3;
    for (std::size_t i = 0; i < n; ++i) dot += (ld)v[i] * w[i];
    eq(td::two_input_map_reduce(std::execution::seq, v, w, 3.0, std::multiplies<>()), dot, scale * 5 * (double)n, "two_input_map_reduce");
    eq(td::two_input_map_reduce(std::execution::par, v, w, 3.0, std::multiplies<>()), dot, scale * 5 * (double)n, "two_input_map_reduce-par");
    auto shorter = w; shorter.pop_back();
    require(throws([&] { td::two_input_map_reduce(std::execution::seq, v, shorter, 0.0, std::multiplies<>()); }) && throws([&] { td::two_input_map_reduce(std::execution::seq, shorter, v, 0.0, std::multiplies<>()); }),
            "two_input_map_reduce/size", "inputs of different sizes accepted");
    event("two_inputs");
    require(close(td::hypot(v[0], w[0], 2.0), std::sqrt(v[0] * v[0] + w[0] * w[0] + 4), 1e-12, 1e-12), "hypot", "wrong");
    const auto mm = td::recursive_minmax(v);
    require(mm.min == *std::min_element(v.begin(), v.end()) && mm.max == *std::max_element(v.begin(), v.end()), "recursive_minmax", "wrong");
}
VP_SECTION("nested_generators", 300, 5000)
{
    const int x = (int)r.range(-9, 9);
    const std::size_t n = r.size(0, 5);
    c.describe("generators ", x, " x", n);
    const std::vector<std::vector<std::vector<int>>> want(n, std::vector<std::vector<int>>(n, std::vector<int>(n, x)));
    require(td::n_dim_vector_generator<3>(x, n) == want, "n_dim_vector_generator", "wrong");
    require(td::n_dim_vector_generator<0>(x, n) == x, "n_dim_vector_generator-0", "wrong");
    require((td::n_dim_container_generator<3, int, std::vector>(x, n)) == want, "n_dim_container_generator", "wrong");
    require(td::n_dim_deque_generator<2>(x, n) == std::deque<std::deque<int>>(n, std::deque<int>(n, x)), "n_dim_deque_generator", "wrong");
    require(td::n_dim_list_generator<2>(x, n) == std::list<std::list<int>>(n, std::list<int>(n, x)), "n_dim_list_generator", "wrong");
    const auto a = td::n_dim_array_generator<2, 3>(x);
    for (auto& row : a) for (int v : row) require(v == x, "n_dim_array_generator", "wrong");
    require(a.size() == 3 && a[0].size() == 3, "n_dim_array_generator", "shape");
    event("nested_generated");
    std::array<int, 4> ar; for (auto& v : ar) v = (int)r.range(-9, 9);
    const auto t = td::recursive_transform<1>([](const int& v) { return v * 2.5; }, ar);
    const auto tp = td::recursive_transform<1>(std::execution::par, [](const int& v) { return v * 2.5; }, ar);
    for (int i = 0; i < 4; ++i) require(t[i] == ar[i] * 2.5 && tp[i] == ar[i] * 2.5, "recursive_transform-array", "wrong");
    const auto ap = td::append(ar, 42);
    for (int i = 0; i < 4; ++i) require(ap[i] == ar[i], "append", "wrong");
    require(ap[4] == 42, "append", "wrong");
    event("arrays");
}
