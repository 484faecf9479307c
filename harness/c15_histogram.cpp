// C15: histograms count every element exactly once; histogram arithmetic; Otsu's threshold.
#include "img.hpp"
#include "image_operations.h"
using namespace vp;
using TinyDIP::Histogram;

template<class E> E value(Rng& r, int span) { return (E)(std::is_signed_v<E> ? r.range(-span, span) : r.range(0, std::min<long long>(span, (long long)std::numeric_limits<E>::max()))); }
template<class E> struct Model
{
    std::map<E, std::size_t> m;
    std::size_t at(E k) const { auto i = m.find(k); return i == m.end() ? 0 : i->second; }
    std::size_t sum() const { std::size_t s = 0; for (auto& [k, v] : m) s += v; return s; }
};
template<class E> constexpr bool dense = std::is_same_v<E, std::uint8_t> || std::is_same_v<E, std::uint16_t>;

template<class E> void agree(const Histogram<E>& h, const Model<E>& m, const char* key, int span, Rng& r)
{
    require(h.getCountSum() == m.sum(), key, "counts sum to ", h.getCountSum(), ", expected ", m.sum());
    for (auto& [k, v] : m.m)
    {
        require(h.getCount(k) == v, key, "count of ", +k, " is ", h.getCount(k), ", expected ", v);
        require(h[k] == v, key, "[", +k, "] is ", h[k], ", expected ", v);
    }
    for (int i = 0; i < 10; ++i)
    {
        const E k = value<E>(r, span);
        require(h.getCount(k) == m.at(k) && h[k] == m.at(k), key, "count of ", +k, " is ", h.getCount(k), ", expected ", m.at(k));
    }
    std::size_t seen = 0, nonzero = 0;
    if constexpr (dense<E>)
    {
        std::size_t i = 0;
        for (auto it = h.cbegin(); it != h.cend(); ++it, ++i) { require(*it == m.at((E)i), key, "iteration yields ", *it, " for ", i, ", expected ", m.at((E)i)); seen += *it; nonzero += *it != 0; }
        require(i == (std::size_t)std::numeric_limits<E>::max() + 1 && h.size() == i, key, "a dense histogram iterates over ", i, " bins");
        std::size_t again = 0;
        for (auto v : h) again += v;
        require(again == seen, key, "begin/end and cbegin/cend disagree");
    }
    else
    {
        std::size_t n = 0;
        for (auto it = h.cbegin(); it != h.cend(); ++it, ++n) { require(it->second == m.at(it->first), key, "iteration yields ", it->second, " for ", +it->first); seen += it->second; }
        require(h.size() == n, key, "size() is ", h.size(), " with ", n, " entries");
        std::size_t again = 0;
        for (const auto& [k, v] : h) again += v;
        require(again == seen, key, "begin/end and cbegin/cend disagree");
    }
    require(seen == m.sum(), key, "iteration counts ", seen, " elements, expected ", m.sum());
    event("histograms_compared");
}
template<class E> Sz shape(Rng& r)
{
    if (std::is_same_v<E, std::uint16_t>) return { r.size(1, 5), r.size(1, 4) };
    Sz s = rnd_size2(r, 14);
    if (r.chance(0.2)) s.push_back(r.size(1, 3));
    return s;
}
template<class E> Image<E> make(Rng& r, const Sz& s, int span)
{
    Image<E> im(s);
    for (auto& v : im.getImageData()) v = value<E>(r, span);
    return im;
}
template<class E> void history(Rng& r, Case& c, const char* tn)
{
    int span = (int)r.pick(std::vector<int>{ 1, 3, 20, 255, 3000, 65535 });
    const Sz s = shape<E>(r);
    if (product(s) > 30000) span = std::min(span, 20); else if (product(s) > 1000) span = std::min(span, 255); // counting costs elements x distinct values
    const auto im = make<E>(r, s, span);
    Pure<E> pure(im, "histogram");
    c.describe(tn, " ", shows(s), " span=", span);
    Histogram<E> h = TinyDIP::histogram(im);
    Model<E> m;
    for (auto v : im.getImageData()) ++m.m[v];
    agree(h, m, "histogram", span, r);
    pure.check();
    Histogram<E> other; Model<E> om;
    const int steps = std::is_same_v<E, std::uint16_t> ? 4 : (int)r.range(3, 14);
    for (int i = 0; i < steps; ++i)
    {
        const int op = (int)r.range(0, 6);
        c.describe(" ", op);
        const E k = value<E>(r, span);
        switch (op)
        {
        case 0: h.addCount(k); ++m.m[k]; break;
        case 1: other.addCount(k); ++om.m[k]; break;
        case 2: h += other; for (auto& [a, v] : om.m) m.m[a] += v; break;
        case 3: h -= other; for (auto& [a, v] : om.m) if (m.m.count(a)) m.m[a] = m.m[a] >= v ? m.m[a] - v : 0; break;
        case 4:
        {
            const auto sum = h + other; auto sm = m;
            for (auto& [a, v] : om.m) sm.m[a] += v;
            agree(sum, sm, "histogram+", span, r);
            const auto dif = h - other; auto dm = m;
            for (auto& [a, v] : om.m) if (dm.m.count(a)) dm.m[a] = dm.m[a] >= v ? dm.m[a] - v : 0;
            agree(dif, dm, "histogram-", span, r);
            break;
        }
        case 5: { const std::size_t n = r.chance(0.1) ? (std::size_t)r.range(65530, 70000) : r.chance(0.1) ? ((std::size_t)1 << 32) + r.size(0, 9) : r.size(0, 9); h[k] = n; m.m[k] = n; break; }
        default:
        {
            Histogram<E> copy = h;
            copy.addCount(k);
            require(copy.getCount(k) == m.at(k) + 1, "histogram-copy", "a copy does not count");
            break;
        }
        }
        agree(h, m, "histogram-history", span, r);
        agree(other, om, "histogram-operand", span, r);
        event("histogram_steps");
    }
    if (m.sum() > 0)
    {
        const auto n = h.normalize();
        double total = 0;
        for (auto& [k, v] : m.m)
        {
            require(close(n.getCount(k), (double)v / m.sum(), 1e-12, 1e-15), "normalize", "probability of ", +k, " is ", n.getCount(k), ", expected ", (double)v / m.sum());
            total += n.getCount(k);
        }
        require(close(total, 1, 1e-9), "normalize", "probabilities sum to ", total);
        require(close(n.getCountSum(), 1, 1e-9), "normalize", "probabilities sum to ", n.getCountSum());
        event("normalised");
    }
}
VP_SECTION("history_u8", 400, 10000) { history<std::uint8_t>(r, c, "u8"); }
VP_SECTION("history_int", 400, 10000) { history<int>(r, c, "int"); }
VP_SECTION("history_unsigned", 200, 5000) { history<unsigned>(r, c, "unsigned"); }
VP_SECTION("history_u16", 16, 200) { history<std::uint16_t>(r, c, "u16"); }
VP_SECTION("large_u8", 3, 30) { Big big; history<std::uint8_t>(r, c, "u8"); }
VP_SECTION("large_int", 3, 30) { Big big; history<int>(r, c, "int"); }

template<class E> void probabilities(Rng& r, Case& c, const char* tn)
{
    int span = (int)r.pick(std::vector<int>{ 1, 3, 20, 255 });
    const Sz s = shape<E>(r);
    if (product(s) > 30000) span = std::min(span, 20);
    Image<E> im(s);
    for (auto& v : im.getImageData()) v = (E)r.range(0, span);
    if (r.chance(0.1)) for (auto& v : im.getImageData()) v = (E)span;
    c.describe(tn, " ", shows(s), " span=", span);
    std::map<long long, std::size_t> m;
    for (auto v : im.getImageData()) ++m[(long long)v];
    const double N = (double)im.count();
    // histogram_normalized
    {
        const auto hn = TinyDIP::histogram_normalized(im);
        double tot = 0;
        if constexpr (dense<E>)
            for (std::size_t i = 0; i < hn.size(); ++i) { const double w = m.count((long long)i) ? m[(long long)i] / N : 0; require(close(hn[i], w, 1e-9, 1e-12), "histogram_normalized", "bin ", i, " is ", hn[i], ", expected ", w); tot += hn[i]; }
        else
        {
            require(hn.size() == m.size(), "histogram_normalized", hn.size(), " keys, expected ", m.size());
            for (auto& [k, v] : hn) { const double w = m.count((long long)k) ? m[(long long)k] / N : 0; require(close(v, w, 1e-9, 1e-12), "histogram_normalized", "key ", +k, " is ", v, ", expected ", w); tot += v; }
        }
        require(close(tot, 1, 1e-9), "histogram_normalized", "sums to ", tot);
    }
    const Histogram<E> h(im);
    const auto p = h.to_probabilities_vector();
    const auto pp = h.to_probabilities_vector(std::execution::par);
    require(p == pp, "to_probabilities_vector", "policies disagree");
    require(p.size() == (dense<E> ? (std::size_t)std::numeric_limits<E>::max() + 1 : (std::size_t)m.rbegin()->first + 1), "to_probabilities_vector", "has ", p.size(), " entries");
    for (std::size_t i = 0; i < p.size(); ++i)
    {
        const double w = m.count((long long)i) ? m[(long long)i] / N : 0;
        require(close(p[i], w, 1e-12, 1e-15), "to_probabilities_vector", "entry ", i, " is ", p[i], ", expected ", w);
    }
    // Otsu: a maximiser of the between-class variance, the first of its plateau
    const std::size_t t = TinyDIP::otsu_threshold(im), t2 = TinyDIP::otsu_threshold(std::execution::par, im), t3 = TinyDIP::otsu_threshold(p);
    require(t == t2 && t == t3, "otsu", "overloads disagree: ", t, " ", t2, " ", t3);
    if (m.size() == 1) { require(t == p.size(), "otsu/degenerate", "one grey level gives ", t); event("otsu_degenerate"); }
    else
    {
        std::vector<long double> ss(p.size(), -1);
        long double best = -1, w1 = 0, m1 = 0, wt = 0, mt = 0;
        for (auto& [k, v] : m) { wt += v; mt += (long double)v * k; }
        for (std::size_t i = 0; i < p.size(); ++i)
        {
            const long double v = m.count((long long)i) ? m[(long long)i] : 0;
            w1 += v; m1 += v * i;
            const long double w2 = wt - w1, m2 = mt - m1;
            if (w1 > 0 && w2 > 0) { const long double d = m1 / w1 - m2 / w2; ss[i] = w1 * w2 * d * d; best = std::max(best, ss[i]); }
        }
        require(t < p.size() && ss[t] >= best * (1 - 1e-9L), "otsu", "threshold ", t, " has between-class variance ", (double)(t < ss.size() ? ss[t] : -1), ", the maximum is ", (double)best);
        require(m.count((long long)t), "otsu/plateau", "threshold ", t, " is not the first of its plateau");
        event("otsu_thresholds");
    }
    // thresholding
    const E th = (E)r.range(0, span);
    Ref<E> bw(s);
    for (std::size_t i = 0; i < product(s); ++i) bw.d[i] = im.getImageData()[i] > th ? std::numeric_limits<E>::max() : std::numeric_limits<E>::lowest();
    expect(TinyDIP::apply_threshold_openmp(im, th), bw, "apply_threshold");
}
VP_SECTION("probabilities_u8", 600, 15000) { probabilities<std::uint8_t>(r, c, "u8"); }
VP_SECTION("probabilities_int", 600, 15000) { probabilities<int>(r, c, "int"); }
VP_SECTION("probabilities_u16", 8, 100) { probabilities<std::uint16_t>(r, c, "u16"); }
VP_SECTION("large_probabilities", 3, 30) { Big big; probabilities<std::uint8_t>(r, c, "u8"); }
VP_SECTION("negative", 100, 2000)
{
    const Sz s = rnd_size2(r, 6);
    auto im = make<int>(r, s, 9);
    im.getImageData()[r.size(0, im.count() - 1)] = -1 - (int)r.range(0, 50);
    c.describe("int ", shows(s));
    const Histogram<int> h(im);
    require(throws([&] { h.to_probabilities_vector(); }), "to_probabilities_vector/negative", "a vector indexed by negative values was returned");
    event("negative_rejections");
}
template<std::size_t B, class E> void bins_one(Rng& r, Case& c, const char* tn)
{
    const Sz s = rnd_size2(r, 14);
    const auto im = rnd_image<E>(r, s);
    E lo = std::is_same_v<E, std::uint8_t> && r.chance(0.4) ? (E)0 : rnd_scalar<E>(r), hi = std::is_same_v<E, std::uint8_t> && r.chance(0.4) ? (E)255 : rnd_scalar<E>(r);
    if (hi < lo) std::swap(lo, hi);
    if (hi == lo) { if (hi == std::numeric_limits<E>::max()) lo = lo - 1; else hi = hi + 1; }
    c.describe(tn, " ", shows(s), " bins=", B, " [", +lo, ",", +hi, "]");
    const auto h = TinyDIP::histogram_with_bins<B, E>(im, lo, hi);
    std::size_t total = 0, inside = 0, slack = 0;
    std::array<std::size_t, B> mn{}, mx{};
    for (auto v : im.getImageData())
    {
        if (v < lo || v > hi) continue;
        ++inside;
        const long double q = ((long double)v - (long double)lo) * B / ((long double)hi - (long double)lo);
        const std::size_t a = std::min<std::size_t>(B - 1, (std::size_t)std::max(0.0L, std::floor(q - 1e-9L))), b = std::min<std::size_t>(B - 1, (std::size_t)std::floor(q + 1e-9L));
        if (a == b) { ++mn[a]; ++mx[a]; } else { ++mx[a]; ++mx[b]; ++slack; }
    }
    for (std::size_t i = 0; i < B; ++i) { total += h[i]; require(h[i] >= mn[i] && h[i] <= mx[i], "histogram_with_bins", "bin ", i, " holds ", h[i], ", expected ", mn[i], slack ? " or a little more" : ""); }
    require(total == inside, "histogram_with_bins/total", total, " counted, ", inside, " elements in range");
    event("binned", inside);
    const auto n = TinyDIP::normalize_histogram(h);
    const auto np = TinyDIP::normalize_histogram(std::execution::par, h);
    if (total) for (std::size_t i = 0; i < B; ++i)
        require(close(n[i], (double)h[i] / total, 1e-12, 1e-15) && close(np[i], (double)h[i] / total, 1e-12, 1e-15), "normalize_histogram", "bin ", i);
}
VP_SECTION("bins_u8", 500, 10000) { bins_one<8, std::uint8_t>(r, c, "u8"); }
VP_SECTION("bins_u8_7", 500, 10000) { bins_one<7, std::uint8_t>(r, c, "u8"); }
VP_SECTION("bins_double", 500, 10000) { bins_one<16, double>(r, c, "double"); }
VP_SECTION("bins_int", 300, 10000) { bins_one<5, int>(r, c, "int"); }
VP_SECTION("normalize_map", 200, 4000)
{
    std::map<int, std::size_t> m;
    std::size_t sum = 0;
    for (std::size_t i = r.size(1, 12); i--;) { auto& v = m[(int)r.range(-9, 9)]; sum -= v; v = r.size(1, 50); sum += v; }
    c.describe(m.size(), " keys, ", sum, " counts");
    const auto n = TinyDIP::normalize_histogram(m);
    require(n.size() == m.size(), "normalize_histogram-map", "keys lost");
    for (auto& [k, v] : m) require(n.count(k) && close(n.at(k), (double)v / sum, 1e-12), "normalize_histogram-map", "key ", k);
    event("maps_normalised");
}
