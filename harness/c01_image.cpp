// C01: Image container: shape, addressing, bounds checking, value semantics.
#include <charconv>
#include "img.hpp"
#include "image_operations.h"
using namespace vp;

namespace
{
    Sz rnd_dims(Rng& r)
    {
        const std::size_t n = r.size(1, 5);
        Sz s(n);
        const std::size_t hi = n <= 2 ? 17 : n == 3 ? 8 : 5;
        for (auto& x : s) x = rnd_extent(r, hi);
        return s;
    }
    std::vector<std::size_t> unrank(std::size_t i, const Sz& s)
    {
        std::vector<std::size_t> o;
        for (auto n : s) { o.push_back(i % n); i /= n; }
        return o;
    }
    template<class T> decltype(auto) at_pack(Image<T>& im, const std::vector<std::size_t>& x)
    {
        switch (x.size())
        {
        case 1: return im.at(x[0]);
        case 2: return im.at(x[0], x[1]);
        case 3: return im.at(x[0], x[1], x[2]);
        case 4: return im.at(x[0], x[1], x[2], x[3]);
        default: return im.at(x[0], x[1], x[2], x[3], x[4]);
        }
    }
    template<class T> T cat_pack(const Image<T>& im, const std::vector<std::size_t>& x)
    {
        switch (x.size())
        {
        case 1: return im.at(x[0]);
        case 2: return im.at(x[0], x[1]);
        case 3: return im.at(x[0], x[1], x[2]);
        case 4: return im.at(x[0], x[1], x[2], x[3]);
        default: return im.at((int)x[0], (int)x[1], (int)x[2], (int)x[3], (int)x[4]);
        }
    }
    template<class T> T nb_pack(const Image<T>& im, const std::vector<std::size_t>& x)
    {
        switch (x.size())
        {
        case 1: return im.at_without_boundary_check(x[0]);
        case 2: return im[x[0], x[1]];
        case 3: return im[x[0], x[1], x[2]];
        case 4: return im.at_without_boundary_check(x[0], x[1], x[2], x[3]);
        default: return im[x[0], x[1], x[2], x[3], x[4]];
        }
    }
    template<class T> bool set_tuple(Image<T>& im, const std::vector<std::size_t>& x, T v)
    {
        switch (x.size())
        {
        case 1: return im.set(std::make_tuple(x[0]), v);
        case 2: return im.set(std::make_tuple(x[0], x[1]), v);
        case 3: return im.set(std::make_tuple(x[0], x[1], x[2]), v);
        case 4: return im.set(std::make_tuple(x[0], x[1], x[2], x[3]), v);
        default: return im.set(std::make_tuple(x[0], x[1], x[2], x[3], x[4]), v);
        }
    }

    template<class T> void addressing(Rng& r, Case& c, const char* tn)
    {
        const Sz s = rnd_dims(r);
        c.describe(tn, " ", shows(s));
        const std::size_t n = product(s);
        std::vector<T> data(n);
        for (std::size_t i = 0; i < n; ++i) data[i] = rnd_value<T>(r);
        Image<T> im(data, s);
        require(im.getDimensionality() == s.size(), "shape", "dimensionality");
        require(im.count() == n && im.count(std::execution::seq) == n, "shape", "count ", im.count(), " for ", shows(s));
        require(im.getImageData().size() == n, "shape", "data size");
        std::size_t stride = 1;
        for (std::size_t k = 0; k < s.size(); ++k)
        {
            require(im.getSize(k) == s[k], "shape", "size[", k, "]");
            require(im.getStride(k) == stride, "shape", "stride[", k, "] = ", im.getStride(k), " want ", stride);
            stride *= s[k];
        }
        require(im.getWidth() == s[0] && im.getHeight() == (s.size() > 1 ? s[1] : 0), "shape", "width/height");
        const Image<T>& cim = im;
        for (std::size_t i = 0; i < n; ++i)
        {
            const auto x = unrank(i, s);
            const std::list<std::size_t> xl(x.begin(), x.end());
            const std::vector<int> xi(x.begin(), x.end());
            const bool ok = T(cat_pack(cim, x)) == data[i] && T(at_pack(im, x)) == data[i] && T(nb_pack(cim, x)) == data[i] && T(cim.at(x)) == data[i] &&
                T(cim.at(xl)) == data[i] && T(im.at(xi)) == data[i] && T(cim.get(i)) == data[i] && T(im.set(i)) == data[i] && T(cim.at_without_boundary_check(x)) == data[i];
            require(ok, "addressing", "element (", index_of(i, s), ") read differently through one of the accessors");
        }
        event("elements_cross_read", n);
        // writes through each accessor land on exactly that element
        Ref<T> model = snap(cim);
        for (int k = 0; k < 12; ++k)
        {
            const std::size_t i = r.size(0, n - 1);
            const auto x = unrank(i, s);
            const T v = rnd_value<T>(r);
            switch (k % 5)
            {
            case 0: at_pack(im, x) = v; break;
            case 1: im.at(x) = v; break;
            case 2: require(set_tuple(im, x, v), "addressing", "set(tuple) refused an in-range location"); break;
            case 3: im.set(i) = v; break;
            default: im.at_without_boundary_check(x) = v; break;
            }
            model.d[i] = v;
        }
        expect(cim, model, "addressing/write");
        // out-of-range: every dimension, past the end by one and by a lot; wrong arity
        std::ostringstream sink;
        for (std::size_t k = 0; k < s.size(); ++k)
        {
            for (std::size_t past : { std::size_t(0), std::size_t(1), std::size_t(1000), ~std::size_t(0) - s[k] })
            {
                auto x = unrank(r.size(0, n - 1), s);
                x[k] = s[k] + past;
                require(throws([&] { (void)cat_pack(cim, x); }), "bounds", "at() accepted index ", x[k], " in dimension ", k, " of ", shows(s));
                require(throws([&] { (void)at_pack(im, x); }), "bounds", "mutable at() accepted index ", x[k], " in dimension ", k, " of ", shows(s));
                require(throws([&] { (void)cim.at(x); }), "bounds", "at(range) accepted index ", x[k], " in dimension ", k, " of ", shows(s));
                require(throws([&] { (void)im.at(x); }), "bounds", "mutable at(range) accepted index ", x[k], " in dimension ", k, " of ", shows(s));
                require(!set_tuple(im, x, rnd_value<T>(r)), "bounds", "set(tuple) accepted index ", x[k], " in dimension ", k);
                event("oob_probes", 5);
            }
        }
        for (std::size_t i : { n, n + 1, n * 2 + 7 }) require(throws([&] { im.set(i, sink); }), "bounds", "set(", i, ") accepted with count ", n);
        {
            auto x = unrank(0, s);
            x.push_back(0);
            require(throws([&] { (void)cim.at(x); }) && throws([&] { (void)im.at(x); }), "arity", "at(range) accepted ", x.size(), " indices for a ", s.size(), "-D image");
            x.pop_back(); x.pop_back();
            require(throws([&] { (void)cim.at(x); }) && throws([&] { (void)im.at(x); }), "arity", "at(range) accepted ", x.size(), " indices for a ", s.size(), "-D image");
            if (s.size() != 2) require(throws([&] { (void)cim.at(std::size_t(0), std::size_t(0)); }) && throws([&] { (void)im.at(0, 0); }), "arity", "at(x, y) accepted on a ", s.size(), "-D image");
            if (s.size() != 3) require(throws([&] { (void)cim.at(std::size_t(0), std::size_t(0), std::size_t(0)); }), "arity", "at(x, y, z) accepted on a ", s.size(), "-D image");
            if (s.size() != 1) require(throws([&] { im.set(std::make_tuple(std::size_t(0)), rnd_value<T>(r)); }), "arity", "set(tuple<1>) accepted on a ", s.size(), "-D image");
        }
        expect(cim, model, "bounds/rejected-access-wrote");
        if (s.size() == 2)
        {
            // coordinates delivered by the pixel iterator
            std::size_t seen = 0;
            for (const auto& [v, x, y] : cim.pixels_with_coordinates())
            {
                require(x < s[0] && y < s[1] && T(v) == model.d[y * s[0] + x] && seen == y * s[0] + x, "iteration", "pixel iterator delivered (", x, ",", y, ") at step ", seen);
                ++seen;
            }
            require(seen == n, "iteration", "pixel iterator visited ", seen, " of ", n);
            for (auto&& [v, x, y] : im.pixels_with_coordinates()) { T nv = rnd_value<T>(r); v = nv; model.d[y * s[0] + x] = nv; }
            expect(cim, model, "iteration/write");
        }
        else require(throws([&] { (void)cim.pixels_with_coordinates(); }), "iteration", "pixel iterator on a ", s.size(), "-D image");
        if (n == 1) c.trivial = true;
    }

    template<class T> void value_semantics(Rng& r, Case& c, const char* tn)
    {
        const Sz s = rnd_dims(r);
        c.describe(tn, " ", shows(s));
        Image<T> a = rnd_image<T>(r, s);
        const Ref<T> ra = snap(a);
        Image<T> b = a;
        require(a == b && !(a != b), "value", "copy differs");
        const std::size_t i = r.size(0, product(s) - 1);
        const T old = b.getImageData()[i];
        T nv = rnd_value<T>(r);
        b.set(i) = nv;
        expect(a, ra, "value/copy-aliases");
        require((a == b) == (old == nv), "value", "equality ignores an element");
        Image<T> m = std::move(b);
        require(m.getImageData()[i] == nv && m.count() == product(s), "value", "move lost data");
        Image<T> asg;
        asg = a;
        require(asg == a, "value", "assignment differs");
        // same data, different shape: not equal
        if (s.size() >= 2 && s[0] != s[1])
        {
            Sz t = s; std::swap(t[0], t[1]);
            Image<T> u(ra.d, t);
            require(!(u == a), "value", "equality ignores shape");
        }
        const T k = rnd_value<T>(r);
        if (r.chance(0.5)) a.setAllValue(k);
        else with_policy((int)r.range(0, 3), [&](auto&& p) { a.setAllValue(p, k); });
        expect(a, Ref<T>(s, k), "value/setAllValue");
        // freshly sized images are value-initialised and have the product of the extents
        Image<T> z(s);
        expect(z, Ref<T>(s, T{}), "value/fresh");
        if (s.size() == 2)
        {
            Image<T> z2(s[0], s[1]), z3((int)s[0], (int)s[1]);
            expect(z2, Ref<T>(s, T{}), "value/fresh"); expect(z3, Ref<T>(s, T{}), "value/fresh");
            Image<T> d2(ra.d, s[0], s[1]);
            expect(d2, ra, "value/ctor");
            std::vector<std::vector<T>> rows(s[1], std::vector<T>(s[0]));
            for (std::size_t y = 0; y < s[1]; ++y) for (std::size_t x = 0; x < s[0]; ++x) rows[y][x] = ra.d[y * s[0] + x];
            expect(Image<T>(rows), ra, "value/ctor-rows");
            if (s[1] > 1)
            {
                auto ragged = rows;
                if (r.chance(0.5) && s[0] > 1) ragged.back().pop_back(); else ragged[r.size(1, s[1] - 1)].push_back(rnd_value<T>(r));
                require(throws([&] { Image<T> bad(ragged); }), "value/ctor-ragged", "constructor accepted rows of unequal length");
            }
        }
        if (s.size() == 3) { Image<T> d3(ra.d, s[0], s[1], s[2]); expect(d3, ra, "value/ctor"); }
        // data of the wrong length is rejected by every sized constructor
        std::vector<T> bad = ra.d;
        if (r.chance(0.5)) bad.push_back(rnd_value<T>(r)); else bad.pop_back();
        require(throws([&] { Image<T> x(bad, s); }), "value/ctor-mismatch", "constructor accepted ", bad.size(), " elements for ", shows(s));
        if (s.size() == 2) require(throws([&] { Image<T> x(bad, s[0], s[1]); }), "value/ctor-mismatch", "constructor accepted ", bad.size(), " elements for ", shows(s));
        if (s.size() == 1) require(throws([&] { Image<T> x(std::as_const(bad), s[0]); }), "value/ctor-mismatch", "constructor accepted ", bad.size(), " elements for ", shows(s));
        require(throws([&] { Image<T> x(Sz{}); }), "value/ctor-mismatch", "empty size list accepted");
        if (product(s) < 2) c.trivial = true;
    }

    template<class T> void arithmetic(Rng& r, Case& c, const char* tn)
    {
        const Sz s = rnd_dims(r);
        c.describe(tn, " ", shows(s));
        const Image<T> a = rnd_image<T>(r, s);
        Image<T> b = rnd_image<T>(r, s);
        for (auto& v : b.getImageData()) if (v == T{}) v = T(3);
        Ref<T> ra = snap(a), rb = snap(b), w = ra;
        auto each = [&](auto f) { for (std::size_t i = 0; i < w.d.size(); ++i) w.d[i] = f(ra.d[i], rb.d[i]); };
        Image<T> t = a; t += b; each([](T x, T y) { return (T)(x + y); }); expect(t, w, "arith/+=");
        expect(a + b, w, "arith/+");
        t = a; t -= b; each([](T x, T y) { return (T)(x - y); }); expect(t, w, "arith/-=");
        expect(a - b, w, "arith/-");
        t = a; t *= b; each([](T x, T y) { return (T)(x * y); }); expect(t, w, "arith/*=");
        t = a; t /= b; each([](T x, T y) { return (T)(x / y); }); expect(t, w, "arith//=");
        expect(a, ra, "arith/input-modified"); expect(b, rb, "arith/input-modified");
        Sz o = s;
        o[r.size(0, o.size() - 1)] += r.size(1, 3);
        const Image<T> big = rnd_image<T>(r, o);
        for (int k = 0; k < 2; ++k)
        {
            Image<T> lhs = k ? a : big;
            const Image<T>& rhs = k ? big : a;
            const Ref<T> keep = snap(lhs);
            require(throws([&] { lhs += rhs; }) && throws([&] { lhs -= rhs; }) && throws([&] { lhs *= rhs; }) && throws([&] { lhs /= rhs; }),
                "arith/size", "compound assignment between ", shows(s), " and ", shows(o), " accepted");
            expect(lhs, keep, "arith/size-rejected-wrote");
        }
    }
}

VP_SECTION("addressing.u8", 400, 8000) { addressing<std::uint8_t>(r, c, "u8"); }
VP_SECTION("addressing.double", 300, 6000) { addressing<double>(r, c, "double"); }
VP_SECTION("addressing.rgb", 300, 6000) { addressing<RGB>(r, c, "RGB"); }
VP_SECTION("addressing.mc4", 150, 3000) { addressing<MultiChannel<float, 4>>(r, c, "MC4"); }
VP_SECTION("value.u8", 300, 6000) { value_semantics<std::uint8_t>(r, c, "u8"); }
VP_SECTION("value.double", 300, 6000) { value_semantics<double>(r, c, "double"); }
VP_SECTION("value.hsv", 200, 4000) { value_semantics<HSV>(r, c, "HSV"); }
VP_SECTION("arith.int", 300, 6000) { arithmetic<int>(r, c, "int"); }
VP_SECTION("arith.double", 300, 6000) { arithmetic<double>(r, c, "double"); }
VP_SECTION("cast", 300, 6000)
{
    const Sz s = rnd_dims(r);
    c.describe(shows(s));
    const Image<std::uint8_t> a = rnd_image<std::uint8_t>(r, s);
    Pure<std::uint8_t> p(a, "cast");
    Ref<double> w(s);
    for (std::size_t i = 0; i < w.d.size(); ++i) w.d[i] = snap(a).d[i];
    const Image<double> d = a.cast<double>();
    expect(d, w, "cast");
    expect_same(d.cast<std::uint8_t>(), a, "cast/roundtrip");
    expect_same(a.cast<int>().cast<std::uint8_t>(), a, "cast/roundtrip");
    p.check();
}
VP_SECTION("bool_image", 200, 2000)
{
    const Sz s = rnd_dims(r);
    const std::size_t n = product(s);
    c.describe("bool ", shows(s));
    std::vector<bool> data(n);
    for (std::size_t i = 0; i < n; ++i) data[i] = r.chance(0.5);
    Image<bool> im(data, s);
    for (std::size_t i = 0; i < n; ++i) require((bool)im.at(unrank(i, s)) == data[i] && im.get(i) == data[i], "addressing", "bool image element ", i);
    const std::size_t i = r.size(0, n - 1);
    im.set(i) = !data[i];
    data[i] = !data[i];
    for (std::size_t k = 0; k < n; ++k) require((bool)im.get(k) == data[k], "addressing/write", "bool image write");
}
// text output: every element once, in order, one line per row
template<class T, class Token> void printing(Rng& r, Case& c, const char* tn, Token token)
{
    const Sz s = rnd_dims(r);
    const Image<T> im = rnd_image<T>(r, s);
    c.describe(tn, " ", shows(s));
    Pure<T> pure(im, "print");
    const std::string sep = r.chance(0.5) ? "\t" : r.pick(std::vector<std::string>{ "; ", "|", " , " });
    std::ostringstream a, b;
    im.print(sep, a);
    b << im;
    std::string want;
    std::function<void(Sz&, std::size_t, const std::string&)> rec = [&](Sz& at, std::size_t d, const std::string& sp) {
        for (std::size_t i = 0; i < s[d]; ++i) { at[d] = i; if (d == 0) want += token(im.at(at)) + sp; else { rec(at, d - 1, sp); want += '\n'; } }
        if (d) want += '\n';
    };
    // blank lines between planes are layout; lines with elements are not
    auto lines = [](const std::string& t) { std::vector<std::string> o; std::istringstream in(t); for (std::string l; std::getline(in, l);) { while (!l.empty() && l.back() == ' ') l.pop_back(); if (!l.empty()) o.push_back(l); } return o; };
    Sz at(s.size(), 0);
    rec(at, s.size() - 1, sep);
    require(lines(a.str()) == lines(want), "print", "printed ", a.str().substr(0, 200), " for ", want.substr(0, 200));
    want.clear(); at.assign(s.size(), 0);
    rec(at, s.size() - 1, "\t");
    require(lines(b.str()) == lines(want), "stream", "inserted ", b.str().substr(0, 200), " for ", want.substr(0, 200));
    event("elements_printed", product(s));
    pure.check();
}
VP_SECTION("print.int", 100, 2000) { printing<int>(r, c, "int", [](int v) { return std::to_string(v); }); }
VP_SECTION("print.u8", 100, 2000) { printing<std::uint8_t>(r, c, "u8", [](int v) { return std::to_string(v); }); }
VP_SECTION("print.double", 100, 2000) { printing<double>(r, c, "double", [](double v) { char b[64]; return std::string(b, std::to_chars(b, b + 64, v).ptr); }); }
VP_SECTION("print.rgb", 60, 1000) { printing<RGB>(r, c, "RGB", [](const RGB& v) { return cat("{", (int)v.channels[0], ", ", (int)v.channels[1], ", ", (int)v.channels[2], "}"); }); }
VP_SECTION("print.mc", 60, 1000) { printing<MultiChannel<int, 3>>(r, c, "MC3", [](const MultiChannel<int, 3>& v) { return cat("( ", v.channels[0], " ", v.channels[1], " ", v.channels[2], ") "); }); }
VP_SECTION("same_sizes", 300, 4000)
{
    Sz s[3]; for (auto& q : s) q = { r.size(1, 3), r.size(1, 3) };
    const Image<int> a(s[0]), b(s[1]), d(s[2]);
    c.describe(shows(s[0]), " ", shows(s[1]), " ", shows(s[2]));
    const bool w = s[0][0] == s[1][0], h = s[0][1] == s[1][1], w3 = w && s[1][0] == s[2][0], h3 = h && s[1][1] == s[2][1];
    namespace td = TinyDIP;
    require(td::is_width_same(a, b) == w && td::is_height_same(a, b) == h && td::is_size_same(a, b) == (w && h), "sizes/two", "wrong answer");
    require(td::is_width_same(a, b, d) == w3 && td::is_height_same(a, b, d) == h3 && td::is_size_same(a, b, d) == (w3 && h3), "sizes/three", "wrong answer");
    require(throws([&] { td::check_width_same(a, b); }) == !w && throws([&] { td::check_height_same(a, b); }) == !h && throws([&] { td::check_size_same(a, b); }) == !(w && h), "sizes/checked", "wrong answer");
    event(w && h ? "same_sizes" : "different_sizes");
}
VP_SECTION("print.latex", 100, 1000)
{
    const Sz s{ r.size(1, 6), r.size(1, 6) };
    const auto im = rnd_image<RGB>(r, s);
    c.describe(shows(s));
    const std::string path = tmpdir() + "/p.tex";
    TinyDIP::print_with_latex_to_file(im, path);
    std::ostringstream os;
    auto* const old = std::cout.rdbuf(os.rdbuf());
    TinyDIP::print_with_latex(im);
    std::cout.rdbuf(old);
    std::ifstream f(path); std::stringstream t; t << f.rdbuf();
    require(os.str() == t.str(), "latex/same", "the file and the stream differ");
    std::string want = "\\begin{tikzpicture}[x=1cm,y=0.4cm]\n";
    for (std::size_t y = 0; y < s[1]; ++y) for (std::size_t x = 0; x < s[0]; ++x)
        want += cat("\\draw (", x, ",", y, ") node[anchor=south,fill={rgb:red,", (int)im.at(x, y).channels[0], ";green,", (int)im.at(x, y).channels[1], ";blue,", (int)im.at(x, y).channels[2], "}] {};\n");
    want += "\\end{tikzpicture}\n";
    require(os.str() == want, "latex/pixels", "printed ", os.str());
    event("latex_pixels", product(s));
}
VP_SECTION("negative_tuple", 200, 2000)
{
    // signed coordinates: a location outside the image (negative) is refused, not written somewhere else
    const Sz s = { rnd_extent(r, 12), rnd_extent(r, 12) };
    Image<int> im = rnd_image<int>(r, s);
    const auto keep = snap(im);
    const long long x = r.range(-5, -1), y = r.range(0, (long long)s[1] - 1);
    c.describe(shows(s), " at ", x, ",", y);
    require(throws([&] { (void)im.at(x, y); }) && throws([&] { (void)im.at((int)y, (int)x); }), "bounds", "at() accepted a negative coordinate");
    require(throws([&] { (void)im.at(std::vector<long long>{ x, y }); }), "bounds", "at(range) accepted a negative coordinate");
    require(!im.set(std::make_tuple(std::size_t(0), (int)x), 12345), "bounds", "set(tuple) accepted a negative coordinate");
    expect(im, keep, "bounds/rejected-access-wrote");
}
VP_SECTION("empty", 1, 1)
{
    c.describe("default-constructed");
    Image<double> e;
    std::ostringstream sink;
    require(e.getDimensionality() == 0 && e.getImageData().empty(), "empty", "default image is not empty");
    require(e.count() == 0 && e.count(std::execution::seq) == 0, "empty", "count of a default image is ", e.count());
    require(throws([&] { e.set(0, sink); }), "empty", "set(0) on a default image accepted");
    require(throws([&] { (void)e.at(0, 0); }), "empty", "at(0,0) on a default image accepted");
    require(throws([&] { (void)e.at(Sz{ 0 }); }), "empty", "at(range) on a default image accepted");
    require(e == Image<double>() && !(e == Image<double>(Sz{ 1 })), "empty", "equality");
}
