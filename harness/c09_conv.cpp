// Discrete convolution against the textbook double sum.
#include "img.hpp"
#include "image_operations.h"
using namespace vp;
namespace td = TinyDIP;

// out[n] = sum_k x[k] y[n-k], every axis
template<class A, class B> Ref<long double> full(const Ref<A>& x, const Ref<B>& y)
{
    Sz s = x.size;
    for (std::size_t i = 0; i < s.size(); ++i) s[i] += y.size[i] - 1;
    Ref<long double> o(s, 0);
    Sz ix(s.size(), 0);
    for (std::size_t a = 0; a < x.d.size(); ++a)
    {
        for (std::size_t b = 0; b < y.d.size(); ++b)
        {
            std::size_t at = 0, stride = 1, ra = a, rb = b;
            for (std::size_t i = 0; i < s.size(); ++i)
            {
                at += (ra % x.size[i] + rb % y.size[i]) * stride;
                ra /= x.size[i]; rb /= y.size[i]; stride *= s[i];
            }
            o.d[at] += (long double)x.d[a] * (long double)y.d[b];
        }
    }
    return o;
}
static Ref<long double> central(const Ref<long double>& f, const Sz& want)
{
    Ref<long double> o(want, 0);
    for (std::size_t i = 0; i < o.d.size(); ++i)
    {
        std::size_t at = 0, stride = 1, r = i;
        for (std::size_t k = 0; k < want.size(); ++k)
        {
            at += (r % want[k] + f.size[k] / 2 - want[k] / 2) * stride;
            r /= want[k]; stride *= f.size[k];
        }
        o.d[i] = f.d[at];
    }
    return o;
}
template<class T> Image<T> small(Rng& r, const Sz& s)
{
    Image<T> im(s);
    const int mode = (int)r.range(0, 5);
    for (auto& x : im.getImageData()) x = mode == 0 ? T(0) : T(std::is_integral_v<T> ? r.range(std::is_signed_v<T> ? -9 : 0, 9) : 0);
    if constexpr (std::is_floating_point_v<T>) for (auto& x : im.getImageData()) x = (T)r.real(-10, 10);
    if (mode == 1) { for (auto& x : im.getImageData()) x = T(0); im.getImageData()[r.size(0, im.getImageData().size() - 1)] = T(1); }
    return im;
}
template<class O, class A, class B> void run2(Rng& r, Case& c, const char* tn)
{
    const Sz s = rnd_size2(r, 13), k = r.chance(0.1) ? rnd_size2(r, 16) : rnd_size2(r, 6);
    c.describe(tn, " image ", shows(s), " kernel ", shows(k)); c.trivial = product(k) == 1 && product(s) == 1;
    const auto x = small<A>(r, s); const auto y = small<B>(r, k);
    Pure<A> px(x, "conv2"); Pure<B> py(y, "conv2");
    const auto f = full(snap(x), snap(y));
    static_assert(std::is_same_v<std::remove_cvref_t<decltype(td::conv2(x, y).getImageData()[0])>, O>);
    expect(td::conv2(x, y), f, "conv2-full", 1e-9, 1e-7);
    expect(td::conv2(std::execution::seq, x, y), f, "conv2-full", 1e-9, 1e-7);
    expect(td::conv2(x, y, true), central(f, s), "conv2-same", 1e-9, 1e-7);
    expect(td::conv2(std::execution::seq, x, y, true), central(f, s), "conv2-same", 1e-9, 1e-7);
    px.check(); py.check();
    event("outputs", f.d.size());
    if (k[0] > s[0] || k[1] > s[1]) event("kernel_larger_than_image");
}
VP_SECTION("conv2.double", 500, 10000) { run2<double, double, double>(r, c, "double*double"); }
VP_SECTION("conv2.mixed", 400, 8000) { run2<double, std::uint8_t, double>(r, c, "u8*double"); }
VP_SECTION("conv2.int", 400, 8000) { run2<int, int, int>(r, c, "int*int"); }
VP_SECTION("convolution_nd", 600, 10000)
{
    const std::size_t n = r.size(1, 4);
    Sz s, k;
    for (std::size_t i = 0; i < n; ++i) { s.push_back(rnd_extent(r, n > 2 ? 4 : 9)); k.push_back(rnd_extent(r, n > 2 ? 3 : 5)); }
    c.describe("convolution ", shows(s), " kernel ", shows(k)); c.trivial = product(s) == 1;
    const auto x = small<double>(r, s), y = small<double>(r, k);
    Pure<double> px(x, "convolution"), py(y, "convolution");
    const auto f = full(snap(x), snap(y));
    expect(td::convolution(x, y), f, "convolution-full", 1e-9, 1e-7);
    expect(td::convolution(x, y, true), central(f, s), "convolution-same", 1e-9, 1e-7);
    px.check(); py.check();
    event(cat("dims", n));
    event("outputs", f.d.size());
    if (n == 2) { expect_same(td::convolution(x, y), td::conv2(x, y), "convolution-vs-conv2", 1e-9, 1e-7); }
}
