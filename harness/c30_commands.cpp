// C30: every command of the program does to the workspace exactly what the library function of that name does to
// the named operands, in every session; a command line that makes no sense changes nothing and says so.
// The real program runs; its standard input is a stream that hands out the next line only after the monitor has
// compared the workspace (reached through a plugin) with a model.
#include "vp.hpp"
#include "ws.hpp"
#include "main.h"
#include <iostream>
#include <sys/stat.h>
using namespace vp;
using TinyDIP::Image; using TinyDIP::RGB; using TinyDIP::HSV; using TinyDIP::RGB_DOUBLE;
extern int tinydip_main(int, char**);
extern "C" void vp_plugin_math(CommandRegistry&);
extern "C" void vp_plugin_add(CommandRegistry&);
namespace
{
Workspace* ws = nullptr;
// ---- comparing values of any type --------------------------------------------------------
template<class T> bool eq(const T& a, const T& b);
template<class T> bool eq(const std::complex<T>& a, const std::complex<T>& b) { return vp::close(a.real(), b.real()) && vp::close(a.imag(), b.imag()); }
template<class... T> bool eq(const std::tuple<T...>& a, const std::tuple<T...>& b)
{
    return [&]<std::size_t... I>(std::index_sequence<I...>) { return (eq(std::get<I>(a), std::get<I>(b)) && ...); }(std::index_sequence_for<T...>{});
}
template<class T> bool eq(const T& a, const T& b)
{
    if constexpr (std::is_floating_point_v<T>) return vp::close((double)a, (double)b);
    else if constexpr (std::is_arithmetic_v<T>) return a == b;
    else if constexpr (requires { a.getImageData(); })
    {
        if (a.getSize() != b.getSize()) return false;
        const auto x = a.getImageData(); const auto y = b.getImageData();
        if (x.size() != y.size()) return false;
        for (std::size_t i = 0; i < x.size(); ++i) if (!eq(x[i], y[i])) return false;
        return true;
    }
    else if constexpr (requires { a.p; }) { for (std::size_t k = 0; k < std::size(a.p); ++k) if (!eq(a.p[k], b.p[k])) return false; return true; }
    else if constexpr (requires { a.channels; }) { for (std::size_t k = 0; k < std::size(a.channels); ++k) if (!eq(a.channels[k], b.channels[k])) return false; return true; }
    else
    {
        if (std::ranges::size(a) != std::ranges::size(b)) return false;
        auto j = std::ranges::begin(b);
        for (auto i = std::ranges::begin(a); i != std::ranges::end(a); ++i, ++j)
        {
            const std::ranges::range_value_t<T> u = *i, v = *j;
            if (!eq(u, v)) return false;
        }
        return true;
    }
}
template<class T> struct Add { using type = T; };
using Keypoints = decltype(TinyDIP::SIFT_impl::get_potential_keypoint(std::declval<const Image<double>&>(), std::size_t(1), std::size_t(4), 1.6, 1.4, 8.0, 12.1,
    std::declval<std::function<Image<double>(const Image<double>&, const std::size_t, const std::size_t)>>()));
using Types = std::tuple<int, double, bool, unsigned char, std::size_t, RGB, RGB_DOUBLE, HSV,
    Image<double>, Image<RGB>, Image<RGB_DOUBLE>, Image<HSV>, Image<unsigned char>, Image<int>, Image<bool>, Image<std::size_t>, Image<std::complex<double>>,
    std::vector<bool>, std::vector<unsigned char>, std::vector<int>, std::vector<double>, std::vector<std::size_t>,
    std::deque<bool>, std::deque<unsigned char>, std::deque<int>, std::deque<double>, std::deque<std::size_t>,
    std::list<bool>, std::list<unsigned char>, std::list<int>, std::list<double>, std::list<std::size_t>,
    std::array<double, 3>, std::array<int, 4>, std::vector<std::complex<double>>,
    std::vector<Image<double>>, std::vector<Image<RGB>>, std::vector<Image<unsigned char>>, std::vector<Image<HSV>>, std::deque<Image<double>>, std::list<Image<RGB>>,
    std::vector<std::vector<double>>, std::vector<std::list<int>>, std::vector<std::deque<unsigned char>>, std::vector<Image<std::complex<double>>>, Keypoints>;
bool same(const std::any& a, const std::any& b)
{
    if (a.type() != b.type()) return false;
    return [&]<class... T>(std::type_identity<std::tuple<T...>>) {
        bool known = false, r = false;
        ((a.type() == typeid(T) ? (void)(known = true, r = eq(*std::any_cast<T>(&a), *std::any_cast<T>(&b))) : void()), ...);
        if (!known) fail("commands/type", cat("a variable of unexpected type ", a.type().name()));
        return r;
    }(std::type_identity<Types>{});
}
// ---- generators --------------------------------------------------------------------------
std::string to_s(double d) { char b[40]; std::snprintf(b, sizeof b, "%.17g", d); return b; }
std::vector<std::size_t> shape(Rng& r, std::size_t lo = 1, std::size_t hi = 12)
{
    if (lo == 1 && hi == 12 && r.chance(0.02)) { event("long_images"); const std::size_t n = r.size(65, 270), m = r.size(1, 3); return r.chance(0.5) ? std::vector<std::size_t>{ n, m } : std::vector<std::size_t>{ m, n }; }
    std::size_t w = r.size(lo, hi), h = r.size(lo, hi);
    if (w == h && r.chance(0.8)) h = h < hi ? h + 1 : h - (h > lo);
    return { w, h };
}
template<class T> Image<T> image(Rng& r, const std::vector<std::size_t>& s)
{
    Image<T> im(s);
    for (auto&& p : im.getImageData())
    {
        if constexpr (std::is_same_v<T, double>) p = r.chance(0.3) ? (double)r.range(-3, 3) : r.real(-300, 300);
        else if constexpr (std::is_same_v<T, HSV>) { p.channels[0] = r.real(0, 360); p.channels[1] = r.unit(); p.channels[2] = r.real(0, 255); }
        else if constexpr (requires { p.channels; }) for (auto& c : p.channels) c = (std::uint8_t)r.next();
        else if constexpr (std::is_same_v<T, bool>) p = r.chance(0.5);
        else p = (T)r.range(0, 255);
    }
    return im;
}
template<class C> C numbers(Rng& r, std::size_t n)
{
    C c;
    for (std::size_t i = 0; i < n; ++i)
    {
        using T = typename C::value_type;
        if constexpr (std::is_same_v<T, bool>) c.push_back(r.chance(0.5));
        else if constexpr (std::is_same_v<T, double>) c.push_back(r.chance(0.4) ? (double)r.range(-3, 3) : r.real(-90, 90));
        else if constexpr (std::is_same_v<T, int>) c.push_back((int)r.range(-9, 9));
        else c.push_back((T)r.range(0, 12));
    }
    return c;
}
// ---- the model of a session --------------------------------------------------------------
struct Expect
{
    std::string line;
    bool refused = false;                       // a complaint, and nothing changes
    bool quiet_ok = false;                      // no demand on what is said
    std::string says;                           // text that must appear
    std::function<void(const std::string&)> after;   // instead of comparing $out with the model
};
struct Session
{
    Rng& r;
    Case& c;
    std::map<std::string, std::any> m;
    Expect e;
    bool pending = false;
    int left;
    std::optional<Violation> bad;
    Session(Rng& rr, Case& cc, int n) : r(rr), c(cc), left(n) {}

    template<class T> void give(const std::string& n, const T& v) { m[n] = v; ws->store(n, v); }
    std::string name() { static const char* N[] = { "a", "b", "img", "x1", "tmp_2", "out", "R", "zz" }; return N[r.size(0, 7)]; }
    std::string fresh_name() { return cat("f", r.range(0, 5)); }
    // A variable of the given type: one the session has, or a new one
    template<class T> std::string var(const T& v) { const std::string n = cat("v", r.range(0, 9)); give(n, v); return n; }
    // A random word for the policy at a random place
    std::string with_policy(const std::string& cmd, std::vector<std::string> args, bool allowed = true)
    {
        if (allowed && r.chance(0.5))
        {
            static const char* P[] = { "seq", "par", "par_unseq", "unseq" };
            const char* p = P[r.size(0, 3)];
            args.insert(args.begin() + (long)r.size(0, args.size()), p);
            event(cat("policy_", p));
        }
        std::string l = cmd;
        for (auto& a : args) l += " " + a;
        return l;
    }
    void next_command();
    void verify(const std::string& said);
    std::string step(const std::string& said)
    {
        if (bad) return "exit";
        try
        {
            if (!ws) { if (pending) fail("commands/probe", "the plugin in ./plugins was not loaded or its command did not run"); pending = true; return "vp_probe"; }
            if (e.line.empty()) { require(vp::contents(*ws).empty(), "commands/start", "the workspace of a new session is not empty"); }
            else verify(said);
            if (left-- <= 0) return r.chance(0.5) ? "exit" : "quit";
            e = Expect{};
            next_command();
            c.describe(e.line, "; ");
            return e.line;
        }
        catch (const Violation& v) { bad = v; return "exit"; }
        catch (const std::exception& x) { bad = Violation("commands/oracle", cat("the library call threw: ", x.what(), " for ", e.line)); return "exit"; }
    }
};
bool complaint(const std::string& s)
{
    return s.find("rror") != std::string::npos || s.find("sage:") != std::string::npos || s.find("nknown") != std::string::npos || s.find("not found") != std::string::npos || s.find("No such") != std::string::npos;
}
void Session::verify(const std::string& said)
{
    event("commands_run");
    if (!e.quiet_ok)
    {
        if (e.refused) { require(complaint(said), "commands/silent", "no complaint about {", e.line, "}: ", said); event("refused"); }
        else require(!complaint(said), "commands/refused", "{", e.line, "} said: ", said);
    }
    if (!e.says.empty()) { require(said.find(e.says) != std::string::npos, "commands/text", "{", e.line, "} does not say '", e.says, "' but: ", said); event("texts"); }
    if (e.after) e.after(said);
    std::size_t seen = 0;
    for (auto& [n, v] : vp::contents(*ws))
    {
        if (n.starts_with("__")) continue;
        auto it = m.find(n);
        require(it != m.end(), "commands/extra", "{", e.line, "} left a variable $", n);
        require(same(it->second, v), "commands/value", "{", e.line, "}: $", n, " has another value or type than the library call gives (", v.type().name(), ")");
        ++seen;
    }
    require(seen == m.size(), "commands/lost", "{", e.line, "}: ", m.size() - seen, " variables are missing");
    event("variables_compared", seen);
}
#define V(n) (std::string("$") + (n))
void Session::next_command()
{
    const int k = (int)r.range(0, 46);
    const std::string out = name();
    auto num = [&](std::size_t n) { return std::to_string(n); };
    auto set = [&](const auto& v) { m[out] = v; };
    // unary transformations of one operand
    auto unary = [&](const char* cmd, const auto& in, auto fn, std::vector<std::string> more = {}, bool policy = true) {
        const std::string v = var(in);
        std::vector<std::string> a{ V(v), V(out) };
        a.insert(a.end(), more.begin(), more.end());
        e.line = with_policy(cmd, a, policy);
        event(cat("cmd_", cmd));
        set(fn(in));
    };
    switch (k)
    {
    case 0: case 1:
    {
        const bool one = k == 1;
        std::vector<std::size_t> s{ r.size(1, 7), r.size(1, 7) };
        if (r.chance(0.3)) s.push_back(r.size(1, 4));
        std::string l = V(out);
        for (auto d : s) l += " " + num(d);
        Image<double> im(s);
        for (auto& p : im.getImageData()) p = one ? 1.0 : 0.0;
        set(im); e.line = cat(one ? "ones " : "zeros ", l); event(one ? "cmd_ones" : "cmd_zeros");
        break;
    }
    case 2:
    {
        const std::size_t w = r.size(1, 25), h = r.size(1, 25); std::size_t g = r.size(1, 9);
        std::vector<std::string> a{ V(out), num(w), num(h) };
        if (r.chance(0.7)) a.push_back(num(g)); else g = 10;
        Image<RGB> im(w, h);
        for (std::size_t y = 0; y < h; ++y) for (std::size_t x = 0; x < w; ++x) for (auto& ch : im.at(x, y).channels) ch = (x % g == 0 || y % g == 0) ? 0 : 255;
        set(im); e.line = with_policy("grid", a); event("cmd_grid");
        break;
    }
    case 3:
    {
        const std::size_t w = r.size(1, 12), h = r.size(1, 12), cx = r.size(0, 14), cy = r.size(0, 14); const double s = r.real(0.3, 6);
        set(TinyDIP::gaussianFigure2D(w, h, cx, cy, s));
        e.line = cat("gaussian_figure_2d ", V(out), " ", w, " ", h, " ", cx, " ", cy, " ", to_s(s)); event("cmd_gaussian_figure_2d");
        break;
    }
    case 4:
    {
        static const char* U[] = { "knuth_b", "minstd_rand", "minstd_rand0", "mt19937", "mt19937_64", "ranlux24", "ranlux24_base", "ranlux48", "ranlux48_base" };
        std::vector<std::size_t> s{ r.size(1, 8), r.size(1, 8) };
        if (r.chance(0.3)) s.push_back(r.size(1, 3));
        e.line = cat("rand ", U[r.size(0, 8)], " ", V(out));
        for (auto d : s) e.line += " " + num(d);
        event("cmd_rand");
        m.erase(out);
        e.after = [this, s, out](const std::string&) {
            const auto held = vp::contents(*ws);
            auto it = held.find(out);
            require(it != held.end(), "commands/lost", "{", e.line, "} stored nothing");
            const auto* im = std::any_cast<Image<double>>(&it->second);
            require(im, "commands/value", "{", e.line, "} stored another type");
            const auto z = im->getSize();
            require(std::vector<std::size_t>(z.begin(), z.end()) == s, "commands/value", "{", e.line, "} made another size");
            std::set<double> d;
            for (auto p : im->getImageData()) { require(p >= 0 && p < 1, "commands/value", "{", e.line, "} made ", p); d.insert(p); }
            std::size_t n = 1; for (auto q : s) n *= q;
            require(d.size() + 2 + n / 8 >= n, "commands/value", "{", e.line, "} made only ", d.size(), " different values of ", n);
            m[out] = it->second;
        };
        break;
    }
    case 5: { const auto s = shape(r); const auto w = r.size(1, 14), h = r.size(1, 14);
        if (r.chance(0.5)) unary("bicubic_resize", image<double>(r, s), [&](auto& i) { return TinyDIP::copyResizeBicubic(i, w, h); }, { num(w), num(h) });
        else unary("bicubic_resize", image<RGB>(r, s), [&](auto& i) { return TinyDIP::copyResizeBicubic(i, w, h); }, { num(w), num(h) });
        break; }
    case 6: { const auto s = shape(r); const auto w = r.size(1, 14), h = r.size(1, 14); const int a = (int)r.range(1, 5); const bool given = r.chance(0.7);
        std::vector<std::string> more{ num(w), num(h) }; if (given) more.push_back(std::to_string(a));
        if (r.chance(0.5)) unary("lanczos_resample", image<double>(r, s), [&](auto& i) { return TinyDIP::lanczos_resample(i, w, h, given ? a : 3); }, more);
        else unary("lanczos_resample", image<RGB>(r, s), [&](auto& i) { return TinyDIP::lanczos_resample(i, w, h, given ? a : 3); }, more);
        break; }
    case 7: unary("dct2", image<double>(r, shape(r)), [](auto& i) { return TinyDIP::dct2(i); }); break;
    case 8: unary("idct2", image<double>(r, shape(r)), [](auto& i) { return TinyDIP::idct2(i); }); break;
    case 9: { const auto s = shape(r, 1, 6); std::vector<Image<double>> v; for (std::size_t i = 0, n = r.size(1, 4); i < n; ++i) v.push_back(image<double>(r, s));
        unary("dct3", v, [](auto& i) { return TinyDIP::dct3(i); }); break; }
    case 10: if (r.chance(0.5)) unary("im2double", image<RGB>(r, shape(r)), [](auto& i) { return TinyDIP::im2double(i); });
        else unary("im2double", image<unsigned char>(r, shape(r)), [](auto& i) { return TinyDIP::im2double(i); });
        break;
    case 11: { auto im = image<double>(r, shape(r)); for (auto& p : im.getImageData()) p = (double)r.range(0, 1020) / 4; unary("im2uint8", im, [](auto& i) { return TinyDIP::im2uint8(i); }); break; }
    case 12: unary("hsv2rgb", image<HSV>(r, shape(r)), [](auto& i) { return TinyDIP::hsv2rgb(i); }); break;
    case 13: unary("to_complex", image<double>(r, shape(r)), [](auto& i) { return TinyDIP::to_complex(i); }); break;
    case 14: { const int ch = (int)r.range(0, 2); static const char* N[] = { "getRplane", "getGplane", "getBplane" };
        unary(N[ch], image<RGB>(r, shape(r)), [&](auto& i) { const auto sz = i.getSize(); Image<unsigned char> o(sz); for (std::size_t q = 0; q < i.count(); ++q) o.getImageData()[q] = i.getImageData()[q].channels[ch]; return o; });
        break; }
    case 15:
    {
        const auto s = shape(r);
        const auto R = image<unsigned char>(r, s), G = image<unsigned char>(r, s), B = image<unsigned char>(r, s);
        give("red", R); give("green", G); give("blue", B);
        Image<RGB> o(s);
        for (std::size_t q = 0; q < o.count(); ++q) { auto& p = o.getImageData()[q]; p.channels[0] = R.getImageData()[q]; p.channels[1] = G.getImageData()[q]; p.channels[2] = B.getImageData()[q]; }
        set(o); e.line = with_policy("constructRGB", { "$red", "$green", "$blue", V(out) }); event("cmd_constructRGB");
        break;
    }
    case 16: { const double f = r.chance(0.5) ? (double)r.range(-3, 4) : r.real(-2, 2);
        auto sat = [f](auto& v) { auto o = v; for (auto& x : o) { using T = std::remove_cvref_t<decltype(x)>; if constexpr (std::is_integral_v<T>) x = (T)std::clamp((double)x * f, (double)std::numeric_limits<T>::lowest(), (double)std::numeric_limits<T>::max()); else x *= f; } return o; };
        switch (r.range(0, 4))
        {
        case 0: unary("multiply", image<double>(r, shape(r)), [&](auto& i) { auto o = i; for (auto& p : o.getImageData()) p *= f; return o; }, { to_s(f) }); break;
        case 1: unary("multiply", numbers<std::vector<double>>(r, r.size(0, 6)), sat, { to_s(f) }); break;
        case 2: unary("multiply", numbers<std::list<int>>(r, r.size(0, 6)), sat, { to_s(f) }); break;
        case 3: unary("multiply", numbers<std::vector<int>>(r, r.size(0, 6)), sat, { to_s(f) }); break;
        default: { auto v = numbers<std::deque<unsigned char>>(r, r.size(0, 6)); for (auto& x : v) x = (unsigned char)r.next(); unary("multiply", v, sat, { to_s(f) }); }
        }
        break; }
    case 17: { auto im = image<double>(r, shape(r, 2, 9)); im.getImageData()[0] = 1000; unary("normalize", im, [](auto& i) { return TinyDIP::normalize(i); }); break; }
    case 18:
    {
        event("cmd_count");
        const bool store = r.chance(0.6);
        std::size_t n = 0; std::string v, t;
        if (r.chance(0.5)) { auto im = image<double>(r, shape(r)); const double x = (double)r.range(-3, 3); for (auto p : im.getImageData()) n += p == x; v = var(im); t = to_s(x); if (r.chance(0.3)) { give("target", x); t = "$target"; } }
        else { auto q = numbers<std::vector<int>>(r, r.size(0, 30)); const int x = (int)r.range(-9, 9); for (auto p : q) n += p == x; v = var(q); t = std::to_string(x); }
        std::vector<std::string> a{ V(v), t }; if (store) a.push_back(V(out));
        e.line = with_policy("count", a);
        if (store) set(n); else e.says = cat("Count result: ", n, "\n");
        break;
    }
    case 19: { const auto s = shape(r); const std::size_t x = r.size(0, s[0] - 1), y = r.size(0, s[1] - 1), w = r.size(1, s[0] - x), h = r.size(1, s[1] - y);
        auto cut = [&](auto& i) { std::remove_cvref_t<decltype(i)> o(w, h); for (std::size_t b = 0; b < h; ++b) for (std::size_t a = 0; a < w; ++a) o.at(a, b) = i.at(x + a, y + b); return o; };
        if (r.chance(0.5)) unary("subimage", image<double>(r, s), cut, { num(x), num(y), num(w), num(h) }); else unary("subimage", image<RGB>(r, s), cut, { num(x), num(y), num(w), num(h) });
        break; }
    case 20: { const double ang = r.real(-3, 3); unary("rotate", image<double>(r, shape(r, 2, 9)), [&](auto& i) { return TinyDIP::rotate_detail_shear_transformation(i, ang); }, { to_s(ang) }); break; }
    case 21: { const std::size_t lv = r.size(2, 6); const double sg = r.real(0.8, 2), kk = r.real(1.1, 1.6); const int given = (int)r.range(0, 3);
        std::vector<std::string> more; if (given > 0) more.push_back(num(lv)); if (given > 1) more.push_back(to_s(sg)); if (given > 2) more.push_back(to_s(kk));
        // an image narrower than the widest kernel is refused
        const auto im = image<double>(r, shape(r, 3, 40));
        try { unary("sift_generate_octave", im, [&](auto& i) { return TinyDIP::SIFT_impl::generate_octave(i, given > 0 ? lv : 5, given > 1 ? sg : 1.6, given > 2 ? kk : std::numbers::sqrt2_v<double>); }, more, false); event("octaves_made"); }
        catch (const std::exception&) { e.refused = true; event("octaves_refused"); }
        break; }
    case 22:
    {
        if (r.chance(0.6)) { left++; next_command(); left--; return; }   // expensive: seldom
        const std::size_t W = r.size(20, 34), H = r.size(20, 34); Image<double> im(W, H); const double px = r.real(6, 14), py = r.real(6, 14);
        for (std::size_t y = 0; y < H; ++y) for (std::size_t x = 0; x < W; ++x) im.at(x, y) = 200 * std::exp(-((x - px) * (x - px) + (y - py) * (y - py)) / 8.0) + r.real(0, 3);
        const std::size_t oc = r.size(1, 2), lv = r.size(4, 5); const double ct = r.real(1, 8);
        try {
        unary("get_sift_potential_keypoint", im, [&](auto& i) {
            return TinyDIP::SIFT_impl::get_potential_keypoint(i, oc, lv, 1.6, 1.3, ct, 12.1, [](const auto& q, const std::size_t w, const std::size_t h) { return TinyDIP::copyResizeBicubic(q, w, h); });
        }, { num(oc), num(lv), "1.6", "1.3", to_s(ct), "12.1" });
        }
        catch (const std::exception&) { e.refused = true; event("octaves_refused"); }
        break;
    }
    case 23: { if (m.empty()) { give("a", 5); } auto it = m.begin(); std::advance(it, r.size(0, m.size() - 1)); e.line = cat("copy $", it->first, " ", V(out)); auto v = it->second; m[out] = v; event("cmd_copy"); break; }
    case 24: { if (m.empty()) { give("a", 5); } auto it = m.begin(); std::advance(it, r.size(0, m.size() - 1)); const std::string from = it->first; e.line = cat("rename $", from, " ", V(out)); auto v = it->second; m.erase(from); m[out] = v; event("cmd_rename"); break; }
    case 25:
    {
        event("cmd_remove");
        if (r.chance(0.2)) { e.line = "remove all"; m.clear(); break; }
        e.line = "remove";
        for (int i = 0, n = (int)r.range(1, 3); i < n; ++i)
        {
            const std::string nme = r.chance(0.8) && !m.empty() ? std::next(m.begin(), (long)r.size(0, m.size() - 1))->first : cat("nothere", i);
            e.line += " $" + nme; m.erase(nme);
        }
        e.quiet_ok = true;
        break;
    }
    case 26:
    {
        auto cc = [&](const auto& v) { const std::string n = var(v); std::vector<std::remove_cvref_t<decltype(v)>> o; o.push_back(v); set(o); e.line = cat("create_container ", V(n), " ", V(out)); };
        switch (r.range(0, 4)) { case 0: cc(image<double>(r, shape(r))); break; case 1: cc(image<RGB>(r, shape(r))); break; case 2: cc(numbers<std::vector<double>>(r, 4)); break; case 3: cc(numbers<std::list<int>>(r, 3)); break; default: cc(image<HSV>(r, shape(r))); }
        event("cmd_create_container");
        break;
    }
    case 27: case 28: case 29:
    {
        auto seq = [&](auto v) {
            using C = decltype(v); using T = typename C::value_type;
            const std::size_t n = v.size();
            if (k == 27)
            {
                T x{}; if constexpr (std::is_arithmetic_v<T>) { auto one = numbers<std::vector<T>>(r, 1); x = one[0]; } else x = image<std::remove_cvref_t<decltype(std::declval<T>().at(0, 0))>>(r, shape(r));
                give("cont", v); give("elem", x); auto o = v; o.push_back(x); set(o);
                e.line = cat("append_element $cont $elem ", V(out)); event("cmd_append_element");
                return;
            }
            give("cont", v);
            const std::size_t i = r.chance(0.85) && n ? r.size(0, n - 1) : n + r.size(0, 2);
            e.line = cat(k == 28 ? "erase_element" : "get_element", " $cont ", V(out), " ", i);
            event(k == 28 ? "cmd_erase_element" : "cmd_get_element");
            if (i >= n) { e.refused = true; return; }
            if (k == 28) { auto o = v; o.erase(std::next(o.begin(), (long)i)); set(o); }
            else { const T x = *std::next(v.begin(), (long)i); set(x); }
        };
        const std::size_t n = r.size(0, 5);
        switch (r.range(0, 11))
        {
        case 0: seq(numbers<std::vector<bool>>(r, n)); event("bool_containers"); break;
        case 1: seq(numbers<std::vector<int>>(r, n)); break;
        case 2: seq(numbers<std::vector<double>>(r, n)); break;
        case 3: seq(numbers<std::vector<std::size_t>>(r, n)); break;
        case 4: seq(numbers<std::deque<unsigned char>>(r, n)); break;
        case 5: seq(numbers<std::deque<bool>>(r, n)); break;
        case 6: seq(numbers<std::list<double>>(r, n)); break;
        case 7: seq(numbers<std::list<int>>(r, n)); break;
        case 8: { std::deque<Image<double>> v; for (std::size_t i = 0; i < n; ++i) v.push_back(image<double>(r, shape(r))); seq(v); break; }
        case 9: { std::list<Image<RGB>> v; for (std::size_t i = 0; i < n; ++i) v.push_back(image<RGB>(r, shape(r))); seq(v); break; }
        default: { std::vector<Image<double>> v; for (std::size_t i = 0; i < n; ++i) v.push_back(image<double>(r, shape(r))); seq(v); }
        }
        break;
    }
    case 30: { const auto im = image<RGB>(r, shape(r)); const std::string v = var(im); e.line = cat("info ", V(v)); e.says = cat("Width:  ", im.getWidth(), "\n  Height: ", im.getHeight(), "\n"); event("cmd_info"); break; }
    case 31:
    {
        event("cmd_print");
        if (r.chance(0.5)) { const auto q = numbers<std::vector<int>>(r, r.size(1, 5)); const std::string v = var(q); e.line = cat("print ", V(v)); e.says = "{"; for (std::size_t i = 0; i < q.size(); ++i) e.says += cat(i ? ", " : "", q[i]); e.says += "}"; }
        else { const auto im = image<int>(r, shape(r, 2, 4)); const std::string v = var(im); e.line = cat("print ", V(v));
            e.after = [im, this](const std::string& said) {
                std::string want; for (auto p : im.getImageData()) want += std::to_string(p) + ",";
                std::string got; const auto from = said.find(":\n"); for (char ch : said.substr(from == std::string::npos ? 0 : from)) if (std::isdigit((unsigned char)ch) || ch == '-') got += ch; else if (!got.empty() && got.back() != ',') got += ',';
                require(got.starts_with(want), "commands/text", "{", e.line, "} printed ", said, " for ", want); event("texts");
            }; }
        break;
    }
    case 32:
    {
        e.line = "vars"; event("cmd_vars");
        e.after = [this](const std::string& said) { for (auto& [n, v] : m) require(said.find("$" + n) != std::string::npos, "commands/text", "vars does not list $", n, ": ", said); };
        break;
    }
    case 33: case 34:
    {
        // a command applied to every element
        event("cmd_transform_container");
        std::vector<Image<double>> v; for (std::size_t i = 0, n = r.size(1, 9); i < n; ++i) v.push_back(image<double>(r, shape(r, 2, 8)));
        auto put = [&](auto& w) { give("cont", w); };
        const int form = (int)r.range(0, 2);
        if (form == 0) put(v); else if (form == 1) { std::deque<Image<double>> w(v.begin(), v.end()); put(w); } else put(v);
        std::vector<Image<double>> o;
        std::vector<std::string> a{ "$cont", V(out) };
        switch (r.range(0, 4))
        {
        case 0: for (auto& i : v) o.push_back(TinyDIP::dct2(i)); a.push_back("dct2"); break;
        case 1: for (auto i : v) { for (auto& p : i.getImageData()) p *= 2.5; o.push_back(i); } a.push_back("multiply"); a.push_back("2.5"); break;
        case 2: for (auto& i : v) o.push_back(TinyDIP::copyResizeBicubic(i, 3, 5)); a.insert(a.end(), { "bicubic_resize", "3", "5" }); break;
        case 3: a.push_back("no_such_command"); e.refused = true; event("transform_fails"); break;
        default:
            // fails on the elements that are too narrow only
            { const std::size_t w = r.size(3, 8); bool all = true; for (auto& i : v) { if (i.getWidth() < w) { all = false; continue; } Image<double> q(w, std::size_t(1)); for (std::size_t x = 0; x < w; ++x) q.at(x, 0) = i.at(x, 0); o.push_back(q); }
              a.insert(a.end(), { "subimage", "0", "0", num(w), "1" }); if (!all) { e.refused = true; event("transform_fails"); } }
        }
        e.line = with_policy("transform_container", a);
        if (!e.refused) set(o);
        break;
    }
    case 35: unary("abs", image<double>(r, shape(r)), [](auto& i) { auto o = i; for (auto& p : o.getImageData()) p = std::fabs(p); return o; }); break;
    case 36: case 37:
    {
        const bool mx = k == 36; const bool store = r.chance(0.6);
        auto im = image<double>(r, shape(r)); const auto& d = im.getImageData(); const double v = mx ? *std::max_element(d.begin(), d.end()) : *std::min_element(d.begin(), d.end());
        const std::string n = var(im);
        e.line = cat(mx ? "max " : "min ", V(n)); if (store) { e.line += " " + V(out); set(v); } else { std::ostringstream os; os << (mx ? "Max" : "Min") << " result: " << v << "\n"; e.says = os.str(); }
        event(mx ? "cmd_max" : "cmd_min");
        break;
    }
    case 38:
    {
        event("cmd_sum");
        if (r.chance(0.3)) { auto im = image<RGB>(r, shape(r)); RGB_DOUBLE s{}; for (auto& p : im.getImageData()) for (int q = 0; q < 3; ++q) s.channels[q] += p.channels[q]; const std::string n = var(im); e.line = with_policy("sum", { V(n), V(out) }); set(s); break; }
        if (r.chance(0.3)) { auto q = numbers<std::vector<int>>(r, r.size(0, 9)); int s = 0; for (int x : q) s += x; const std::string n = var(q); e.line = with_policy("sum", { V(n), V(out) }); set(s); break; }
        auto im = image<double>(r, shape(r)); double s = 0; for (auto p : im.getImageData()) s += p;
        const std::string n = var(im); e.line = with_policy("sum", { V(n), V(out) });
        m.erase(out);
        e.after = [this, s, out](const std::string&) { const auto held = vp::contents(*ws); auto it = held.find(out); const double* p = it == held.end() ? nullptr : std::any_cast<double>(&it->second); require(p && vp::close(*p, s, 1e-9, 1e-7), "commands/value", "{", e.line, "} is not ", s); m[out] = it->second; };
        break;
    }
    case 39: case 40:
    {
        const bool add = k == 39;
        event(add ? "cmd_add" : "cmd_subtract");
        const auto s = shape(r);
        auto go = [&](auto x, auto y, auto o) { give("lhs", x); give("rhs", y); set(o); };
        if (r.chance(0.6)) { auto x = image<double>(r, s), y = image<double>(r, s), o = x; for (std::size_t i = 0; i < o.count(); ++i) o.getImageData()[i] = add ? x.getImageData()[i] + y.getImageData()[i] : x.getImageData()[i] - y.getImageData()[i]; go(x, y, o); }
        else { auto x = image<int>(r, s), y = image<int>(r, s), o = x; for (std::size_t i = 0; i < o.count(); ++i) o.getImageData()[i] = add ? x.getImageData()[i] + y.getImageData()[i] : x.getImageData()[i] - y.getImageData()[i]; go(x, y, o); }
        e.line = with_policy(add ? "add" : "subtract", { "$lhs", "$rhs", V(out) });
        break;
    }
    case 41: case 42:
    {
        // pipelines over the real commands
        event("cmd_pipeline");
        const std::size_t w = r.size(1, 6), h = r.size(1, 6); const double f = (double)r.range(-4, 4) / 2;
        switch (r.range(0, 5))
        {
        case 0: { Image<double> o(w, h); o.setAllValue(f); e.line = cat("ones ", w, " ", h, " | multiply ", to_s(f), " | ", V(out)); set(o); break; }
        case 1: { auto g = TinyDIP::gaussianFigure2D(w, h, 1, 2, 1.5); e.line = cat("gaussian_figure_2d ", w, " ", h, " 1 2 1.5 | dct2 | ", V(out)); set(TinyDIP::dct2(g)); break; }
        case 2: { Image<RGB> o(w, h); for (std::size_t y = 0; y < h; ++y) for (std::size_t x = 0; x < w; ++x) for (auto& ch : o.at(x, y).channels) ch = (x % 3 == 0 || y % 3 == 0) ? 0 : 255; e.line = cat("grid ", w, " ", h, " 3 | ", V(out)); set(o); break; }
        case 3: { auto im = image<RGB>(r, { w, h }); const std::string v = var(im); Image<unsigned char> p(w, h); for (std::size_t q = 0; q < p.count(); ++q) p.getImageData()[q] = im.getImageData()[q].channels[1]; e.line = cat("getGplane ", V(v), " | im2double | bicubic_resize 4 3 | ", V(out)); set(TinyDIP::copyResizeBicubic(TinyDIP::im2double(p), 4, 3)); break; }
        case 4: { Image<double> o(w, h); o.setAllValue(0); e.line = cat("zeros ", w, " ", h, " | ", V(out)); set(o); break; }
        default: { auto im = image<double>(r, { w, h }); const std::string v = var(im); const auto sub = image<double>(r, { w, h }); give("rhs", sub); auto o = im; for (std::size_t q = 0; q < o.count(); ++q) o.getImageData()[q] = std::fabs(im.getImageData()[q]) + sub.getImageData()[q]; e.line = cat("abs ", V(v), " | add $rhs | ", V(out)); set(o); }
        }
        break;
    }
    default:
    {
        // lines that make no sense
        e.refused = true;
        const std::string v = var(image<double>(r, { 4, 3 }));
        const std::string text = var(std::string() == "" ? 7 : 7);   // a scalar
        const std::string nt = cat("nothere", r.range(0, 3));
        static const std::size_t BIG = ~std::size_t(0);
        const std::vector<std::string> L{
            cat("dct2 $", nt, " ", V(out)), cat("idct2 ", V(text), " ", V(out)), cat("bicubic_resize ", V(v), " ", V(out), " 4"), cat("bicubic_resize ", V(v), " ", V(out), " four 4"), cat("bicubic_resize ", V(v), " ", V(out), " -4 4"),
            cat("subimage ", V(v), " ", V(out), " 1 1 4 2"), cat("subimage ", V(v), " ", V(out), " 0 2 1 2"), cat("subimage ", V(v), " ", V(out), " ", BIG, " 0 1 1"), cat("subimage ", V(v), " ", V(out), " 0 ", BIG, " 4 1"), cat("subimage par ", V(v), " ", V(out), " 5 0 1 1"),
            cat("subimage par_unseq ", V(v), " ", V(out), " ", BIG, " 0 2 1"),
            cat("grid ", V(out), " 4 4 0"), cat("grid par ", V(out), " 4 4 0"), cat("grid ", V(out), " 4"), cat("grid ", V(out), " x 4"), cat("zeros ", V(out)), cat("zeros ", V(out), " 3 y"), cat("ones ", V(out), " 4294967296 4294967296"), cat("rand mt19937 ", V(out)), cat("rand mersenne ", V(out), " 3 3"),
            cat("gaussian_figure_2d ", V(out), " 3 3 1 1"), cat("gaussian_figure_2d ", V(out), " 3 3 1 1 wide"), cat("hsv2rgb ", V(text), " ", V(out)), cat("getRplane ", V(v), " ", V(out)), "getRplane", "getGplane", "getBplane", cat("getGplane $", nt, " ", V(out)),
            cat("constructRGB ", V(v), " ", V(v), " ", V(v), " ", V(out)), cat("constructRGB ", V(v), " ", V(v)), cat("copy $", nt, " ", V(out)), cat("copy ", V(v)), cat("copy ", v, " ", out), cat("rename $", nt, " ", V(out)), cat("rename ", V(v), " ", out), "remove", cat("multiply ", V(v), " ", V(out)), cat("multiply ", V(v), " ", V(out), " twice"), cat("multiply $", nt, " ", V(out), " 2"),
            cat("count $", nt, " 3"), cat("count ", V(v)), cat("count ", V(v), " 3 notavariable"), cat("create_container $", nt, " ", V(out)), cat("create_container ", V(v), " ", out), cat("append_element ", V(v), " ", V(v), " ", V(out)), cat("erase_element ", V(v), " ", V(out), " 0"), cat("get_element ", V(v), " ", V(out), " 0"), cat("get_element ", V(v), " ", out, " 0"), cat("get_element ", V(v), " ", V(out), " first"),
            cat("sift_generate_octave $", nt, " ", V(out)), cat("sift_generate_octave ", V(v), " ", out), cat("transform_container ", V(v), " ", V(out), " dct2"), cat("transform_container $", nt, " ", V(out), " dct2"), cat("transform_container ", V(v), " ", V(out)), cat("rotate ", V(v), " ", V(out)), cat("rotate ", V(v), " ", V(out), " left"), cat("to_complex ", V(text), " ", V(out)), cat("lanczos_resample ", V(v), " ", V(out), " 3"),
            cat("info $", nt), cat("print $", nt), "info", "print", "no_such_command $a", cat("im2double $", nt, " ", V(out)), cat("im2uint8 $", nt, " ", V(out)), cat("normalize $", nt, " ", V(out)), cat("dct3 ", V(v), " ", V(out)), "dct2", "read", "write", cat("write $", nt, " x.bmp"), cat("read $", nt, " ", V(out)), "load_workspace", cat("load_workspace no_such_directory"), "save_workspace",
            cat("abs $", nt, " ", V(out)), cat("add ", V(v), " $", nt, " ", V(out)), cat("subtract ", V(v), " ", V(text), " ", V(out)), cat("sum $", nt), cat("max $", nt, " ", V(out)), cat("min ", V(v), " notavariable"), cat("get_sift_potential_keypoint ", V(v), " ", out), cat("get_sift_potential_keypoint $", nt, " ", V(out)), cat("dct2 ", V(v), " | no_such_command | ", V(out)) };
        const std::size_t i = r.size(0, L.size() - 1);
        e.line = L[i];
        event("nonsense");
        // transform_container over a container with an output that is no variable
        if (r.chance(0.05)) { give("cont", std::vector<Image<double>>{ image<double>(r, { 3, 2 }) }); e.line = cat("transform_container $cont ", out, " dct2"); }
        // operands of different sizes
        else if (r.chance(0.06)) { give("red", image<unsigned char>(r, { 4, 3 })); give("green", image<unsigned char>(r, { 3, 4 })); give("blue", image<unsigned char>(r, { 4, 3 })); e.line = with_policy("constructRGB", { "$red", "$green", "$blue", V(out) }); }
        else if (r.chance(0.06)) { give("lhs", image<double>(r, { 4, 3 })); give("rhs", image<double>(r, { 3, 4 })); e.line = with_policy(r.chance(0.5) ? "add" : "subtract", { "$lhs", "$rhs", V(out) }); }
        else if (r.chance(0.06)) { give("cont", std::vector<Image<double>>{}); give("elem", image<RGB>(r, { 2, 2 })); e.line = cat("append_element $cont $elem ", V(out)); }
    }
    }
}
#undef V
// ---- standard input as a function of what has been said -----------------------------------
struct Feed : std::streambuf
{
    std::function<std::string()> next;
    std::string cur;
    bool ended = false;
    int_type underflow() override
    {
        if (ended) return traits_type::eof();
        cur = next() + "\n";
        if (cur == "exit\n" || cur == "quit\n") ended = true;
        setg(cur.data(), cur.data(), cur.data() + cur.size());
        return traits_type::to_int_type(cur[0]);
    }
};
void prepare()
{
    static bool done = [] {
        const std::string d = tmpdir();
        if (::chdir(d.c_str()) != 0) { std::fprintf(stderr, "no scratch directory\n"); std::_Exit(3); }
        ::mkdir("plugins", 0700);
        FILE* f = std::fopen("probe.c", "w");
        std::fputs("void vp_register_all(void*); void register_plugin_commands(void* r) { vp_register_all(r); }\n", f);
        std::fclose(f);
        if (std::system("gcc -shared -fPIC -w probe.c -o plugins/probe.so") != 0) { std::fprintf(stderr, "cannot build the probe\n"); std::_Exit(3); }
        return true;
    }();
    (void)done;
}
struct Redirect
{
    std::streambuf *in, *out;
    std::ostringstream said;
    explicit Redirect(std::streambuf* f) : in(std::cin.rdbuf(f)), out(std::cout.rdbuf(said.rdbuf())) { std::cin.clear(); }
    ~Redirect() { std::cin.rdbuf(in); std::cin.clear(); std::cout.rdbuf(out); }
};
}
extern "C" __attribute__((visibility("default"), used)) void vp_register_all(void* p)
{
    auto& reg = *static_cast<CommandRegistry*>(p);
    vp_plugin_math(reg); vp_plugin_add(reg);
    reg.register_command("vp_probe", "", [](Workspace& w, std::span<const std::string_view>, std::ostream&) { ws = &w; });
}

VP_SECTION("session", 900, 20000)
{
    prepare();
    ws = nullptr;
    Session s(r, c, (int)r.range(3, 14));
    Feed f;
    {
        Redirect io(&f);
        f.next = [&] { const std::string t = io.said.str(); io.said.str(""); return s.step(t); };
        char prog[] = "tinydip"; char* av[] = { prog, nullptr };
        const int rc = tinydip_main(1, av);
        ws = nullptr;
        if (!s.bad) require(rc == 0, "commands/exit", "the session ended with status ", rc);
    }
    if (s.bad) throw *s.bad;
    event("sessions");
}

VP_SECTION("oneshot", 120, 2000)
{
    // one command given as program arguments, its output a file
    prepare();
    const std::size_t w = r.size(1, 9), h = r.size(1, 9);
    const int k = (int)r.range(0, 3);
    const std::string f = cat("shot", r.range(0, 9), ".dbmp"), g = cat("shot", r.range(10, 19), ".bmp");
    std::remove(f.c_str()); std::remove(g.c_str());
    std::vector<std::string> a{ "tinydip" };
    const std::size_t cx = r.size(0, 9), cy = r.size(0, 9);
    switch (k)
    {
    case 0: a.insert(a.end(), { "gaussian_figure_2d", f, std::to_string(w), std::to_string(h), std::to_string(cx), std::to_string(cy), "1.25" }); break;
    case 1: a.insert(a.end(), { "ones", f, std::to_string(w), std::to_string(h) }); break;
    case 2: a.insert(a.end(), { "grid", g, std::to_string(w), std::to_string(h), "3" }); break;
    default: a.insert(a.end(), { "dct2", f, "unwritten.dbmp" });
    }
    for (auto& x : a) c.describe(x, " ");
    std::vector<char*> av; for (auto& x : a) av.push_back(x.data()); av.push_back(nullptr);
    std::string said;
    { Feed none; none.ended = true; Redirect io(&none); tinydip_main((int)a.size(), av.data()); said = io.said.str(); }
    const auto boot = said.find("Loaded module");
    require(boot != std::string::npos, "commands/probe", "the plugin was not loaded: ", said);
    if (k == 3) { require(complaint(said) && !std::filesystem::exists("unwritten.dbmp"), "commands/silent", "a missing input file: ", said); event("oneshot_refused"); return; }
    require(!complaint(said), "commands/refused", said);
    if (k == 0) require(eq(TinyDIP::double_image::read(f.c_str(), true), TinyDIP::gaussianFigure2D(w, h, cx, cy, 1.25)), "commands/value", "the file of gaussian_figure_2d holds something else");
    if (k == 1) { Image<double> o(w, h); o.setAllValue(1); require(eq(TinyDIP::double_image::read(f.c_str(), true), o), "commands/value", "the file of ones holds something else"); }
    if (k == 2) { auto o = TinyDIP::bmp_read(g.c_str(), true); require(o.getWidth() == w && o.getHeight() == h, "commands/value", "the file of grid has another size");
        for (std::size_t y = 0; y < h; ++y) for (std::size_t x = 0; x < w; ++x) require(o.at(x, y).channels[0] == ((x % 3 == 0 || y % 3 == 0) ? 0 : 255), "commands/value", "the file of grid holds something else"); }
    event("oneshot");
}
