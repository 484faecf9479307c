// C25: generated images: shape, order of generation, range and reproducibility.
#include "img.hpp"
#include "image_operations.h"
using namespace vp;
namespace td = TinyDIP;

struct Counting { std::mt19937_64 g; using result_type = std::mt19937_64::result_type; std::size_t* calls; static constexpr auto min() { return std::mt19937_64::min(); } static constexpr auto max() { return std::mt19937_64::max(); } result_type operator()() { ++*calls; return g(); } };

VP_SECTION("generate", 600, 10000)
{
    Sz s = { rnd_extent(r, 9), rnd_extent(r, 9), rnd_extent(r, 4) };
    if (r.chance(0.03)) { s[r.size(0, 2)] = r.size(65, 300); event("long_images"); }
    c.describe("generate ", shows(s));
    int k = 0;
    auto gen = [&k] { return k++; };
    auto check = [&](const auto& im, const Sz& want, const char* key)
    {
        const auto gz = im.getSize();
        require(Sz(gz.begin(), gz.end()) == want, key, "shape ", shows(Sz(gz.begin(), gz.end())), " want ", shows(want));
        require(im.getImageData().size() == product(want), key, "elements ", im.getImageData().size());
        for (std::size_t i = 0; i < product(want); ++i) require(im.getImageData()[i] == (int)i, key, "element ", i, " is ", im.getImageData()[i]);
        require((std::size_t)k == product(want), key, "generator called ", k, " times for ", product(want), " elements");
        event("generated", product(want));
        k = 0;
    };
    check(td::generate(gen, s[0]), { s[0] }, "generate-1d");
    check(td::generate(gen, s[0], s[1]), { s[0], s[1] }, "generate-2d");
    check(td::generate(gen, s[0], s[1], s[2]), s, "generate-3d");
    check(td::generate(gen, (int)s[0], (int)s[1]), { s[0], s[1] }, "generate-int");
    check(td::generate(gen, s), s, "generate-range");
    auto uniform = [&](const auto& im, auto v, const Sz& want, const char* key)
    {
        const auto gz = im.getSize();
        require(Sz(gz.begin(), gz.end()) == want && im.getImageData().size() == product(want), key, "shape ", shows(Sz(gz.begin(), gz.end())), " want ", shows(want));
        for (auto& x : im.getImageData()) require(x == v || (x != x && v != v), key, "holds ", +x);
        event("constant_images");
    };
    uniform(td::zeros<int>(s[0], s[1]), 0, { s[0], s[1] }, "zeros");
    uniform(td::zeros<double>(s[0], s[1], s[2]), 0.0, s, "zeros-3d");
    uniform(td::zeros<double>(s), 0.0, s, "zeros-range");
    uniform(td::ones<std::uint8_t>(s[0], s[1]), (std::uint8_t)1, { s[0], s[1] }, "ones");
    uniform(td::ones<double>(s[0], s[1], s[2]), 1.0, s, "ones-3d");
    uniform(td::nan<double>(s[0], s[1]), std::nan(""), { s[0], s[1] }, "nan");
    // linear index <-> indices
    const std::size_t i = r.size(0, product(s) - 1);
    const auto ix = td::linear_index_to_indices(i, s);
    require(ix.size() == 3 && ix[0] + s[0] * (ix[1] + s[1] * ix[2]) == i && ix[0] < s[0] && ix[1] < s[1] && ix[2] < s[2], "linear_index", "index ", i, " of ", shows(s));
    const Sz strides = { 1, s[0], s[0] * s[1] };
    require(td::linear_index_to_indices(i, strides, s) == ix, "linear_index-strides", "index ", i, " of ", shows(s));
    event("linear_indices");
}
VP_SECTION("random", 500, 10000)
{
    Sz s = { r.size(1, 20), r.size(1, 20) };
    if (r.chance(0.03)) { s[r.size(0, 1)] = r.size(65, 300); event("long_images"); }
    const std::uint64_t seed = r.next();
    long long lo = r.range(-1000, 1000), hi = lo + r.range(0, 500);
    if (r.chance(0.05)) { lo = r.range(-32768, 0); hi = r.range(0, 32767); event("wide_limits"); }
    c.describe("random ", shows(s), " seed ", seed, " range ", lo, "..", hi);
    auto in01 = [](const auto& im, const char* key) { for (auto x : im.getImageData()) require(x >= 0 && x < 1, key, "value ", x); };
    auto range = [](const auto& im, long long a, long long b, const char* key) { for (auto x : im.getImageData()) require(x >= a && x <= b, key, "value ", x, " outside ", a, "..", b); };
    auto shape = [](const auto& im, const Sz& want, const char* key) { const auto gz = im.getSize(); require(Sz(gz.begin(), gz.end()) == want && im.getImageData().size() == product(want), key, "shape ", shows(Sz(gz.begin(), gz.end())), " want ", shows(want)); };
    {
        std::mt19937 a((unsigned)seed), b((unsigned)seed);
        const auto x = td::rand<double>(a, s[0], s[1]);
        const auto y = td::rand<double>(b, s[0], s[1]);
        shape(x, s, "rand"); in01(x, "rand/range");
        expect_same(x, y, "rand/reproducible");
        require(a == b, "rand/generator", "equal generators ended in different states");
        std::mt19937 d((unsigned)seed);
        std::uniform_real_distribution<double> u;
        for (std::size_t i = 0; i < product(s); ++i) require(x.getImageData()[i] == u(d), "rand/sequence", "element ", i, " is not the next number of the generator");
        require(a == d, "rand/generator", "the caller's generator was not advanced by exactly one draw per element");
        const auto z = td::rand<double>(a, s[0], s[1]);
        if (product(s) > 3) require(z.getImageData() != x.getImageData(), "rand/advance", "two draws from one generator are equal");
        in01(td::rand<float>(a, s[0], s[1]), "rand-float");
        const auto one = td::rand<double>(a);
        shape(one, { 1, 1 }, "rand-single"); in01(one, "rand-single");
        shape(td::rand<double>(s[0], s[1]), s, "rand-unseeded"); in01(td::rand(s[0], s[1]), "rand-unseeded");
        if (product(s) >= 4)
            require(td::rand(s[0], s[1]).getImageData() != td::rand(s[0], s[1]).getImageData(), "rand-unseeded/equal", "two unseeded images are equal");
        event("random_images", 6);
    }
    {
        std::mt19937_64 a(seed), b(seed);
        const auto x = td::randi<int>(a, std::pair<int, int>{ (int)lo, (int)hi }, s[0], s[1]);
        shape(x, s, "randi"); range(x, lo, hi, "randi/range");
        std::uniform_int_distribution<int> u((int)lo, (int)hi);
        for (std::size_t i = 0; i < product(s); ++i) require(x.getImageData()[i] == u(b), "randi/sequence", "element ", i, " is not the next number of the generator");
        require(a == b, "randi/generator", "the caller's generator was not advanced by exactly one draw per element");
        const int top = (int)r.range(1, 50);
        range(td::randi<int>(std::pair<int, int>{ (int)lo, (int)hi }, s[0], s[1]), lo, hi, "randi-unseeded");
        const auto m = td::randi<int>(top, s[0], s[1]);
        shape(m, s, "randi-max"); range(m, 1, top, "randi-max");
        const auto e = td::randi<int>(a, top);
        require(e.getImageData().size() == 1, "randi-single", "elements ", e.getImageData().size()); range(e, 1, top, "randi-single");
        range(td::randi<int>(top), 1, top, "randi-single-unseeded");
        range(td::randi<std::int16_t>(a, std::pair<std::int16_t, std::int16_t>{ (std::int16_t)lo, (std::int16_t)hi }, (int)s[0], (int)s[1]), lo, hi, "randi-short");
        event("random_images", 6);
    }
}
VP_SECTION("random_limits", 60, 500)
{
    // both ends of a small range are reached, and nothing else
    const int lo = (int)r.range(-5, 5), hi = lo + (int)r.range(0, 3);
    c.describe("limits ", lo, "..", hi);
    std::mt19937_64 g(r.next());
    const auto x = td::randi<int>(g, std::pair<int, int>{ lo, hi }, std::size_t{ 40 }, std::size_t{ 40 });
    std::map<int, std::size_t> seen;
    for (auto v : x.getImageData()) ++seen[v];
    require((int)seen.size() == hi - lo + 1 && seen.begin()->first == lo && seen.rbegin()->first == hi, "randi/coverage", "values ", seen.begin()->first, "..", seen.rbegin()->first, " of ", lo, "..", hi);
    const auto y = td::rand<double>(g, std::size_t{ 40 }, std::size_t{ 40 });
    double m = 0; for (auto v : y.getImageData()) m += v;
    require(std::fabs(m / 1600 - 0.5) < 0.06, "rand/uniform", "mean of 1600 numbers ", m / 1600);
    event("limit_images");
}
