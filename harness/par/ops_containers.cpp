#include "par/ops.hpp"
#include "histogram.h"
static std::vector<std::vector<long long>> nest(Rng& r) { std::vector<std::vector<long long>> v(r.size(2, 12)); for (auto& x : v) { x.resize(r.size(1, 12)); for (auto& q : x) q = r.range(-30, 30); } return v; }
static std::vector<double> reals(Rng& r) { std::vector<double> v(r.size(4, 200)); for (auto& x : v) x = r.real(-5, 5); return v; }
POLICY_OP(recursive_transform) { const auto x = nest(r); d.add(td::recursive_transform<2>(pol, [](const long long& q) { return (double)q * 0.5; }, x)); }
POLICY_OP(recursive_transform_1) { const auto x = reals(r); d.add(td::recursive_transform<1>(pol, [](const double& q) { return q * q; }, x)); }
POLICY_OP(recursive_transform_list) { const auto v = reals(r); const std::list<double> x(v.begin(), v.end()); d.add(td::recursive_transform<1>(pol, [](const double& q) { return q + 2; }, x)); }
POLICY_OP(recursive_transform_reduce) { const auto x = nest(r); d.add(td::recursive_transform_reduce(pol, x, 5LL, [](const long long& q) { return q * q; }, std::plus<long long>())); d.add(td::recursive_transform_reduce<2>(pol, x, 5LL, [](const long long& q) { return q * 3; })); }
POLICY_OP(recursive_find) { const auto x = nest(r); d.add(td::recursive_find<2>(pol, x, 7LL) ? 1 : 0); }
POLICY_OP(recursive_for_each) { const auto x = nest(r); std::atomic<long long> n{ 0 }, t{ 0 }; td::recursive_for_each<2>(pol, [&](auto&& q) { ++n; t += q * q; }, x); d.add(n.load()); d.add(t.load()); }
POLICY_OP(recursive_remove_copy) { const auto v = reals(r); std::vector<long long> x; for (auto q : v) x.push_back((long long)q); d.add(td::recursive_remove_copy<1>(pol, x, 3LL)); }
POLICY_OP(statistics) { const auto x = reals(r); d.add(td::population_variance(pol, x)); d.add(td::population_standard_deviation(pol, x)); d.add(td::square_sum(pol, x)); d.add(td::root_mean_square(pol, x)); }
POLICY_OP(two_input_map_reduce) { const auto x = reals(r); auto y = x; std::reverse(y.begin(), y.end()); d.add(td::two_input_map_reduce(pol, x, y, 3.0, std::multiplies<>())); }
POLICY_OP(sum_pairs) { const auto x = reals(r); std::vector<std::pair<double, int>> p; for (auto q : x) p.emplace_back(q, (int)(q * 10)); d.add(td::sum_first_element(pol, p)); d.add(td::sum_second_element(pol, p)); }
POLICY_OP(histogram)
{
    const auto a = rnd_image<std::uint8_t>(r, shape(r));
    td::Histogram<std::uint8_t> h(a);
    d.add((double)h.getCountSum(pol)); d.add(h.to_probabilities_vector(pol));
    d.add((std::size_t)td::otsu_threshold(pol, a));
    std::array<std::size_t, 40> c{}; for (auto& q : c) q = r.size(0, 50);
    c[0] = 1; d.add(td::normalize_histogram(pol, c));
}
POLICY_OP(is_symmetry) { const std::size_t n = r.size(1, 20); td::linalg::Matrix<double> m(n, n); for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j <= i; ++j) m.at(i, j) = m.at(j, i) = r.real(0, 1); if (r.chance(0.5) && n > 1) m.at(0, n - 1) += 1; d.add(td::linalg::is_symmetry(pol, m) ? 1 : 0); }
POLICY_OP(multichannel_math) { const auto v = rnd_value<MultiChannel<double, 5>>(r); d.add(td::apply_multichannel(pol, v, [](auto&& q) { return q * 2; })); }
POLICY_OP(recursive_count_if) { const auto x = nest(r); d.add(td::recursive_count_if(pol, x, [](const long long& q) { return q % 3 == 0; })); }
POLICY_OP(distances)
{
    const auto x = reals(r); auto y = x; std::reverse(y.begin(), y.end());
    d.add(td::squared_euclidean_distance{}(pol, x, y));
    std::array<double, 9> a{}, b{}; for (auto& q : a) q = r.real(-2, 2); for (auto& q : b) q = r.real(-2, 2);
    d.add(td::euclidean_distance(pol, a, b));
}
POLICY_OP(sparse_histogram)
{
    const auto a = rnd_image<std::uint16_t>(r, shape(r));
    td::Histogram<std::uint16_t> h(a);
    d.add((double)h.getCountSum(pol)); d.add(h.to_probabilities_vector(pol));
}
