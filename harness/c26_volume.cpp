// C26: volumetric images address every voxel at its own place, and their arithmetic acts on every voxel once.
#include "img.hpp"
#include "cube.h"
#include "cube_operations.h"
using namespace vp;
template<class T> using V = TinyDIP::VolumetricImage<T>;

template<class T> T value(Rng& r)
{
    if constexpr (std::is_floating_point_v<T>) return (T)r.real(-20, 20);
    else if constexpr (sizeof(T) == 1) return (T)r.range(0, 255);
    else return (T)r.range(-40, 40);
}
template<class T> struct Model { std::size_t w, h, d; std::vector<T> v; const T& operator()(std::size_t x, std::size_t y, std::size_t z) const { return v[(z * h + y) * w + x]; } };
template<class T> Model<T> rnd_model(Rng& r, std::size_t w, std::size_t h, std::size_t d, bool nonzero = false)
{
    Model<T> m{ w, h, d, {} };
    const T k = value<T>(r); const bool konst = r.chance(0.1);
    for (std::size_t i = 0; i < w * h * d; ++i) { T x = konst ? k : value<T>(r); if (nonzero && x == T{}) x = T(1); m.v.push_back(x); }
    return m;
}
template<class T> V<T> build(const Model<T>& m) { return V<T>(m.v, m.w, m.h, m.d); }
template<class T> void same(const V<T>& got, const Model<T>& want, const char* key)
{
    require(got.getWidth() == want.w && got.getHeight() == want.h && got.getDepth() == want.d, std::string(key) + "/shape", got.getWidth(), "x", got.getHeight(), "x", got.getDepth());
    require(got.getData().size() == want.v.size(), std::string(key) + "/size", got.getData().size(), " elements");
    for (std::size_t z = 0; z < want.d; ++z) for (std::size_t y = 0; y < want.h; ++y) for (std::size_t x = 0; x < want.w; ++x)
        require(got.at(x, y, z) == want(x, y, z), key, "voxel ", x, ",", y, ",", z, " is ", +got.at(x, y, z), " instead of ", +want(x, y, z));
    event("voxels", want.v.size());
}
template<class T> void access(Rng& r, Case& c, const char* tn)
{
    std::size_t w = rnd_extent(r, 9), h = rnd_extent(r, 9), d = rnd_extent(r, 9);
    if (r.chance(0.02)) { (r.chance(0.3) ? w : r.chance(0.5) ? h : d) = r.size(65, 300); event("long_volumes"); }
    c.describe(tn, " ", w, "x", h, "x", d, " #", r.next() % 100000);
    auto m = rnd_model<T>(r, w, h, d);
    auto v = build(m);
    same(v, m, "volume/from-vector");
    for (std::size_t i = 0; i < m.v.size(); ++i) require(v.getData()[i] == m.v[i], "volume/data", "element ", i);
    {
        const V<T> zero(w, h, d);
        same(zero, Model<T>{ w, h, d, std::vector<T>(w * h * d, T{}) }, "volume/zero");
        const T k = value<T>(r);
        const V<T> filled((int)w, (int)h, (int)d, k);
        same(filled, Model<T>{ w, h, d, std::vector<T>(w * h * d, k) }, "volume/filled");
        const V<T> none;
        require(none.getWidth() == 0 && none.getHeight() == 0 && none.getDepth() == 0 && none.getData().empty(), "volume/default", "not empty");
        std::vector<Image<T>> slices;
        const Sz s{ w, h };
        for (std::size_t z = 0; z < d; ++z) { Image<T> im(s); for (std::size_t y = 0; y < h; ++y) for (std::size_t x = 0; x < w; ++x) im.at(x, y) = m(x, y, z); slices.push_back(im); }
        same(V<T>(slices), m, "volume/from-slices");
        event("constructed");
    }
    // wrong amounts of data are refused
    auto longer = m.v; longer.push_back(T{});
    auto shorter = m.v; shorter.pop_back();
    require(throws([&] { V<T>(longer, w, h, d); }) && throws([&] { V<T>(shorter, w, h, d); }), "volume/size-mismatch", "a vector of another length was accepted");
    // writes land on one voxel; reads and writes outside are refused
    for (int i = 0; i < 8; ++i)
    {
        const std::size_t x = r.size(0, w - 1), y = r.size(0, h - 1), z = r.size(0, d - 1);
        const T k = value<T>(r);
        v.at(x, y, z) = k; m.v[(z * h + y) * w + x] = k;
    }
    same(v, m, "volume/write");
    for (int i = 0; i < 8; ++i)
    {
        std::size_t p[3] = { r.size(0, w - 1), r.size(0, h - 1), r.size(0, d - 1) };
        const std::size_t lim[3] = { w, h, d };
        const std::size_t k = r.size(0, 2);
        p[k] = r.pick(std::vector<std::size_t>{ lim[k], lim[k] + 1, lim[k] * 3, ~std::size_t{} });
        const auto& cv = v;
        require(throws([&] { (void)cv.at(p[0], p[1], p[2]); }) && throws([&] { v.at(p[0], p[1], p[2]) = T{}; }), "volume/bounds", "voxel ", p[0], ",", p[1], ",", p[2], " of ", w, "x", h, "x", d, " was accepted");
        event("out_of_range");
    }
    same(v, m, "volume/write");
    // copies are independent, equality sees every voxel and the shape
    auto copy = v;
    require(copy == v && !(copy != v), "volume/equality", "a copy differs");
    const std::size_t x = r.size(0, w - 1), y = r.size(0, h - 1), z = r.size(0, d - 1);
    copy.at(x, y, z) = (T)(copy.at(x, y, z) + 1);
    require(copy != v && !(copy == v), "volume/equality", "voxel ", x, ",", y, ",", z, " is ignored");
    same(v, m, "volume/copy-independent");
    if (w != h) require(!(V<T>(m.v, h, w, d) == V<T>(m.v, w, h, d)), "volume/equality", "the shape is ignored");
    if (h != d) require(!(V<T>(m.v, w, d, h) == V<T>(m.v, w, h, d)), "volume/equality", "the shape is ignored");
    // printing shows every voxel in order
    std::ostringstream os, os2; v.print(" ", os); os2 << v;
    for (auto* o : { &os, &os2 })
    {
        std::istringstream is(o->str());
        if constexpr (std::is_integral_v<T>)
        {
            long long q; std::size_t n = 0;
            while (is >> q) { require(n < m.v.size() && q == (long long)m.v[n], "volume/print", "value ", n, " printed as ", q); ++n; }
            require(n == m.v.size() && is.eof(), "volume/print", n, " values printed");
        }
        else { std::string t; std::size_t n = 0; while (is >> t) ++n; require(n == m.v.size(), "volume/print", n, " values printed"); }
    }
    event("printed");
}
VP_SECTION("access_int", 900, 15000) { access<int>(r, c, "int"); }
VP_SECTION("access_double", 600, 10000) { access<double>(r, c, "double"); }
VP_SECTION("access_u8", 400, 8000) { access<std::uint8_t>(r, c, "u8"); }

template<class T> void arith(Rng& r, Case& c, const char* tn)
{
    std::size_t w = rnd_extent(r, 8), h = rnd_extent(r, 8), d = rnd_extent(r, 8);
    if (r.chance(0.02)) { (r.chance(0.3) ? w : r.chance(0.5) ? h : d) = r.size(65, 300); event("long_volumes"); }
    c.describe(tn, " ", w, "x", h, "x", d, " #", r.next() % 100000);
    const auto ma = rnd_model<T>(r, w, h, d), mb = rnd_model<T>(r, w, h, d, true), mc = rnd_model<T>(r, w, h, d);
    const auto a = build(ma), b = build(mb), e = build(mc);
    auto zip = [&](auto op) { auto o = ma; for (std::size_t i = 0; i < o.v.size(); ++i) o.v[i] = (T)op(ma.v[i], mb.v[i]); return o; };
    auto step = [&](auto f) { auto o = a; auto& ret = f(o); require(&ret == &o, "volume/assign-result", "an assignment does not return its left operand"); return o; };
    const auto add = zip([](T p, T q) { return p + q; }), sub = zip([](T p, T q) { return p - q; }), mul = zip([](T p, T q) { return p * q; }), div = zip([](T p, T q) { return p / q; });
    same(step([&](auto& o) -> auto& { return o += b; }), add, "volume/+=");
    same(step([&](auto& o) -> auto& { return o -= b; }), sub, "volume/-=");
    same(step([&](auto& o) -> auto& { return o *= b; }), mul, "volume/*=");
    same(step([&](auto& o) -> auto& { return o /= b; }), div, "volume//=");
    same(a + b, add, "volume/+"); same(a - b, sub, "volume/-");
    if constexpr (sizeof(T) > 1)
    {
        same(TinyDIP::plus(a), ma, "volume/plus1");
        same(TinyDIP::plus(a, b), add, "volume/plus");
        { auto w3 = add; for (std::size_t i = 0; i < w3.v.size(); ++i) w3.v[i] = ma.v[i] + (mb.v[i] + mc.v[i]); same(TinyDIP::plus(a, b, e), w3, "volume/plus3"); }
        same(TinyDIP::subtract(a, b), sub, "volume/subtract");
        same(TinyDIP::multiplies(a, b), mul, "volume/multiplies");
        same(TinyDIP::divides(a, b), div, "volume/divides");
        { auto n = ma; for (auto& q : n.v) q = -q; same(TinyDIP::negate(a), n, "volume/negate"); }
        if constexpr (std::is_integral_v<T>) same(TinyDIP::modulus(a, b), zip([](T p, T q) { return p % q; }), "volume/modulus");
        const T k = value<T>(r);
        { auto n = ma; for (auto& q : n.v) q = q * k; same(TinyDIP::multiplies(a, k), n, "volume/scale"); same(TinyDIP::multiplies(k, a), n, "volume/scale"); same(a * k, n, "volume/scale"); same(k * a, n, "volume/scale"); }
        const std::vector<V<T>> va{ a, b }, vb{ b, b };
        const auto s = TinyDIP::plus(va, vb), t = TinyDIP::subtract(va, vb), u = TinyDIP::divides(va, vb);
        require(s.size() == 2 && t.size() == 2 && u.size() == 2, "volume/vectors", "wrong number of volumes");
        same(s[0], add, "volume/vectors"); same(t[0], sub, "volume/vectors"); same(u[0], div, "volume/vectors");
        same(t[1], Model<T>{ w, h, d, std::vector<T>(w * h * d, T{}) }, "volume/vectors");
        std::size_t calls = 0;
        const auto o = TinyDIP::voxelwiseOperation([&](T p, T q, T g) { ++calls; return (T)(p - q + 2 * g); }, a, b, e);
        require(calls == ma.v.size(), "volume/voxelwise-calls", calls, " calls for ", ma.v.size(), " voxels");
        auto wv = ma; for (std::size_t i = 0; i < wv.v.size(); ++i) wv.v[i] = (T)(ma.v[i] - mb.v[i] + 2 * mc.v[i]);
        same(o, wv, "volume/voxelwise");
        event("operations");
    }
    require(TinyDIP::is_size_same(a, b) && TinyDIP::is_size_same(a, b, e), "volume/is_size_same", "equal sizes differ");
    // operands of another shape are refused and nothing changes
    std::size_t sh[3] = { w, h, d };
    const std::size_t k = r.size(0, 2);
    if (r.chance(0.5) || sh[k] == sh[(k + 1) % 3]) sh[k] += r.size(1, 2); else std::swap(sh[k], sh[(k + 1) % 3]); // also shapes of the same number of voxels
    const auto odd = build(rnd_model<T>(r, sh[0], sh[1], sh[2], true));
    const char* ax = sh[0] != w ? "width" : sh[1] != h ? "height" : "depth";
    auto o = a;
    require(throws([&] { o += odd; }) && throws([&] { o -= odd; }) && throws([&] { o *= odd; }) && throws([&] { o /= odd; }) && throws([&] { (void)(a + odd); }) && throws([&] { (void)(odd - a); }), "volume/size-check", "operands of another ", ax, " were accepted by an operator");
    if constexpr (sizeof(T) > 1)
        require(throws([&] { (void)TinyDIP::plus(a, odd); }) && throws([&] { (void)TinyDIP::subtract(odd, a); }) && throws([&] { (void)TinyDIP::multiplies(a, odd); }) && throws([&] { (void)TinyDIP::divides(odd, a); }) && throws([&] { (void)TinyDIP::plus(a, b, odd); }), "volume/size-check", "operands of another ", ax, " were accepted");
    require(!TinyDIP::is_size_same(a, odd) && !TinyDIP::is_size_same(a, b, odd) && !TinyDIP::is_size_same(odd, b, e), "volume/is_size_same", "another ", ax, " is called the same");
    same(o, ma, "volume/refused-unchanged");
    same(a, ma, "volume/input-modified"); same(b, mb, "volume/input-modified"); same(e, mc, "volume/input-modified");
    event("mismatches");
}
VP_SECTION("arith_int", 900, 15000) { arith<int>(r, c, "int"); }
VP_SECTION("arith_double", 700, 12000) { arith<double>(r, c, "double"); }
VP_SECTION("arith_u8", 300, 6000) { arith<std::uint8_t>(r, c, "u8"); }
