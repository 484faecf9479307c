// C16: multi-channel smoothing is the smoothing of every channel.
#define VP_NO_MAIN
#include "c16_ref.hpp"
using namespace vp;
template<class T> Image<double> plane(const Image<T>& im, std::size_t k, const Sz& s)
{
    Image<double> p(s);
    for (std::size_t i = 0; i < product(s); ++i) p.getImageData()[i] = (double)im.getImageData()[i].channels[k];
    return p;
}
VP_SECTION("channels_gauss", 60, 1200)
{
    const Sz s = { r.size(6, 12), r.size(6, 12) };
    const double s1 = r.real(0.5, 2);
    const std::size_t f = 2 * r.size(0, 2) + 1;
    c.describe("HSV gauss ", shows(s), " ", s1, " ", f);
    const auto im = rnd_image<HSV>(r, s);
    Pure<HSV> pure(im, "channels-gauss");
    const auto got = TinyDIP::imgaussfilt(std::execution::par, im, s1, s1, 0.0, f, f, BC[2]);
    const auto rk = [](double d) { return std::exp(-d * d / 500); };
    const auto sk = [](double d) { return std::exp(-d * d / 8); };
    const Sz w = { 3, 3 };
    const auto bil = TinyDIP::bilateral_filter(std::execution::seq, im, w, rk, sk, BC[1]);
    for (std::size_t k = 0; k < 3; ++k)
    {
        const auto p = plane(im, k, s);
        const auto want = ref_gauss<double>(snap(p), s1, s1, f, f, 2, 0.0);
        const auto wb = TinyDIP::bilateral_filter(std::execution::seq, p, w, rk, sk, BC[1]);
        for (std::size_t i = 0; i < want.d.size(); ++i)
        {
            require(close(got.getImageData()[i].channels[k], (double)want.d[i], 1e-9, 1e-7), "channels-gauss", "channel ", k, " at ", index_of(i, s), " got ", got.getImageData()[i].channels[k], " want ", (double)want.d[i]);
            require(close(bil.getImageData()[i].channels[k], wb.getImageData()[i], 1e-9, 1e-7), "channels-bilateral", "channel ", k, " at ", index_of(i, s));
        }
    }
    pure.check();
    event("filtered_channels", 3);
}
