// Reference images (independent of TinyDIP::Image arithmetic), generators, comparisons.
#ifndef VP_IMG_HPP
#define VP_IMG_HPP
#include "vp.hpp"
#include "image.h"
#include <execution>

namespace vp
{
    using TinyDIP::Image;
    using TinyDIP::RGB;
    using TinyDIP::RGB_DOUBLE;
    using TinyDIP::HSV;
    using TinyDIP::MultiChannel;
    using Sz = std::vector<std::size_t>;

    template<class T> struct chan { static constexpr std::size_t n = 1; };
    template<> struct chan<RGB> { static constexpr std::size_t n = 3; };
    template<> struct chan<RGB_DOUBLE> { static constexpr std::size_t n = 3; };
    template<> struct chan<HSV> { static constexpr std::size_t n = 3; };
    template<class E, std::size_t N> struct chan<MultiChannel<E, N>> { static constexpr std::size_t n = N; };
    template<class T> struct is_cplx : std::false_type {};
    template<class T> struct is_cplx<std::complex<T>> : std::true_type {};

    template<class T> concept multi = requires(T t) { t.channels[0]; };

    template<class T> T rnd_scalar(Rng& r)
    {
        if constexpr (std::is_same_v<T, bool>) return r.chance(0.5);
        else if constexpr (is_cplx<T>::value) return T(r.real(-10, 10), r.real(-10, 10));
        else if constexpr (std::is_floating_point_v<T>)
        {
            switch (r.range(0, 5))
            {
            case 0: return (T)r.range(-4, 4);
            case 1: return (T)r.real(0, 1);
            case 2: return (T)r.real(-1000, 1000);
            default: return (T)r.real(0, 255);
            }
        }
        else if constexpr (std::is_same_v<T, std::uint8_t>)
        {
            switch (r.range(0, 7)) { case 0: return 0; case 1: return 255; case 2: return (T)r.range(0, 3); default: return (T)r.range(0, 255); }
        }
        else if constexpr (std::is_unsigned_v<T>) return (T)r.range(0, 200);
        else return (T)r.range(-100, 100);
    }
    template<class T> T rnd_value(Rng& r)
    {
        if constexpr (std::is_same_v<T, HSV>) return HSV{ { r.real(0, 359.99), r.real(0, 1), r.real(0, 255) } };
        else if constexpr (multi<T>)
        {
            T t{};
            for (auto& x : t.channels) x = rnd_scalar<std::remove_cvref_t<decltype(x)>>(r);
            return t;
        }
        else return rnd_scalar<T>(r);
    }

    inline std::size_t product(const Sz& s) { std::size_t p = 1; for (auto x : s) p *= x; return p; }

    template<class T> struct Ref
    {
        Sz size;
        std::vector<T> d;
        Ref() = default;
        Ref(Sz s, T v = T{}) : size(std::move(s)), d(product(size), v) {}
        std::size_t w() const { return size[0]; }
        std::size_t h() const { return size[1]; }
        T& operator()(std::size_t x, std::size_t y) { return d[y * size[0] + x]; }
        const T& operator()(std::size_t x, std::size_t y) const { return d[y * size[0] + x]; }
    };
    template<> struct Ref<bool>
    {
        Sz size;
        std::vector<unsigned char> d;
    };

    template<class T> Ref<T> snap(const Image<T>& im)
    {
        Ref<T> o;
        for (std::size_t i = 0; i < im.getDimensionality(); ++i) o.size.push_back(im.getSize(i));
        o.d.assign(im.getImageData().begin(), im.getImageData().end());
        return o;
    }
    template<class T> Image<T> to_image(const Ref<T>& f)
    {
        Image<T> im(f.size);
        for (std::size_t i = 0; i < f.d.size(); ++i) im.getImageData()[i] = f.d[i];
        return im;
    }
    template<class T> Image<T> rnd_image(Rng& r, const Sz& s)
    {
        Image<T> im(s);
        const int mode = (int)r.range(0, 9);
        const T konst = rnd_value<T>(r);
        for (std::size_t i = 0; i < im.getImageData().size(); ++i)
            im.getImageData()[i] = (mode == 0) ? konst : rnd_value<T>(r);
        return im;
    }
    // size mix: tiny, degenerate strips, odd/even, moderate
    inline std::size_t rnd_extent(Rng& r, std::size_t hi)
    {
        switch (r.range(0, 6))
        {
        case 0: return 1;
        case 1: return 2;
        case 2: return 3;
        case 3: return hi;
        default: return r.size(1, hi);
        }
    }
    // Now and then an image is much longer or larger than the others: extents past 64 and 256, counts past 4096 (and,
    // where a section asks for it with Big, past 65536), in case the code treats such images differently.
    inline thread_local bool big_images = false;
    struct Big { bool was = big_images; Big() { big_images = true; } ~Big() { big_images = was; } };
    inline Sz rnd_size2(Rng& r, std::size_t hi = 24)
    {
        if (big_images) { event("images_over_65536"); return { r.size(257, 320), r.size(256, 270) }; }
        if (r.chance(0.012))
        {
            if (hi < 14) { event("long_images"); const std::size_t n = r.size(65, 90), m = r.size(1, 3); return r.chance(0.5) ? Sz{ n, m } : Sz{ m, n }; }
            event("large_images");
            switch (r.range(0, 2))
            {
            case 0: return { r.size(257, 300), r.size(1, 4) };
            case 1: return { r.size(1, 4), r.size(257, 300) };
            default: return { r.size(70, 110), r.size(65, 100) };
            }
        }
        return { rnd_extent(r, hi), rnd_extent(r, hi) };
    }

    template<class T> std::string showv(const T& v)
    {
        if constexpr (multi<T>)
        {
            std::string s = "(";
            for (auto& x : v.channels) s += cat(+x, " ");
            return s + ")";
        }
        else if constexpr (std::is_integral_v<T>) return cat(+v);
        else return cat(v);
    }
    inline std::string shows(const Sz& s) { std::string o; for (auto x : s) o += (o.empty() ? "" : "x") + std::to_string(x); return o; }

    template<class A, class B> bool same_value(const A& a, const B& b, double rel, double ab)
    {
        if constexpr (multi<A>)
        {
            for (std::size_t i = 0; i < chan<A>::n; ++i) if (!same_value(a.channels[i], b.channels[i], rel, ab)) return false;
            return true;
        }
        else if constexpr (is_cplx<A>::value) return close(a.real(), b.real(), rel, ab) && close(a.imag(), b.imag(), rel, ab);
        else if constexpr (std::is_floating_point_v<A> || std::is_floating_point_v<B>)
            return (rel == 0 && ab == 0) ? (a == b || (std::isnan((double)a) && std::isnan((double)b))) : close((double)a, (double)b, rel, ab);
        else if (ab > 0) return std::fabs((double)a - (double)b) <= ab;
        else return a == b;
    }
    inline std::string index_of(std::size_t i, const Sz& s)
    {
        std::string o;
        for (auto n : s) { o += (o.empty() ? "" : ",") + std::to_string(n ? i % n : 0); if (n) i /= n; }
        return o;
    }
    template<class T, class U>
    void expect(const Image<T>& got, const Ref<U>& want, const std::string& key, double rel = 0, double ab = 0)
    {
        const auto gsz = got.getSize(); const Sz gs(gsz.begin(), gsz.end());
        require(gs == want.size, key, "shape ", shows(gs), " instead of ", shows(want.size));
        require(got.getImageData().size() == want.d.size(), key, "holds ", got.getImageData().size(), " elements instead of ", want.d.size());
        for (std::size_t i = 0; i < want.d.size(); ++i)
        {
            const T g = got.getImageData()[i];
            if (!same_value(g, (U)want.d[i], rel, ab))
                fail(key, cat("at (", index_of(i, want.size), ") got ", showv(g), " want ", showv((U)want.d[i]), " in ", shows(want.size)));
        }
    }
    template<class T, class U>
    void expect_same(const Image<T>& a, const Image<U>& b, const std::string& key, double rel = 0, double ab = 0)
    {
        expect(a, snap(b), key, rel, ab);
    }
    // Input-purity monitor: snapshot inputs before a call, compare bit-for-bit after it.
    template<class T> struct Pure
    {
        const Image<T>& im;
        Ref<T> before;
        std::string key;
        Pure(const Image<T>& i, std::string k) : im(i), before(snap(i)), key(std::move(k)) {}
        void check() { expect(im, before, key + "/input-modified"); event("purity_checks"); }
    };
    template<class F>
    void with_policy(int which, F&& f)
    {
        switch (which)
        {
        case 0: f(std::execution::seq); break;
        case 1: f(std::execution::par); break;
        case 2: f(std::execution::par_unseq); break;
        default: f(std::execution::unseq); break;
        }
    }
    inline const char* policy_name(int w) { static const char* n[] = { "seq", "par", "par_unseq", "unseq" }; return n[w & 3]; }
}
#endif
