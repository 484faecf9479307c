#include "par/ops.hpp"
namespace sift = td::SIFT_impl;
template<class T> static auto sorted(T v) { std::sort(v.begin(), v.end()); return v; }
static Image<double> blobs(Rng& r, const Sz& s)
{
    Image<double> im(s);
    for (auto& v : im.getImageData()) v = 100;
    for (int k = 0; k < 12; ++k)
    {
        const double x0 = r.real(0, (double)s[0]), y0 = r.real(0, (double)s[1]), sg = r.real(1, 3), a = r.real(-90, 90);
        for (std::size_t y = 0; y < s[1]; ++y) for (std::size_t x = 0; x < s[0]; ++x)
            im.at(x, y) += a * std::exp(-(((double)x - x0) * ((double)x - x0) + ((double)y - y0) * ((double)y - y0)) / (2 * sg * sg));
    }
    return im;
}
PLAIN_OP(find_local_extrema)
{
    const Sz s = shape(r, 6, 24);
    const auto a = rnd_image<double>(r, s), b = rnd_image<double>(r, s), c = rnd_image<double>(r, s);
    d.add(1);
    for (auto& [o, i, x, y] : sift::find_local_extrema(a, b, c, 0, 0, 0.5, 12.1, true)) { d.add(o); d.add(i); d.add(x); d.add(y); }
}
PLAIN_OP(generate_octave)
{
    const auto a = blobs(r, shape(r, 22, 30));
    for (auto& im : sift::generate_octave(a, 4, 1.0, 1.3)) d.add(im);
}
POLICY_OP(get_potential_keypoint)
{
    const auto im = blobs(r, shape(r, 40, 56));
    std::vector<std::pair<std::size_t, std::size_t>> o;
    for (auto& k : sift::get_potential_keypoint(pol, im, (std::size_t)2, (std::size_t)4, 1.2, 1.3, 0.5, 12.1)) o.emplace_back(k.p[0], k.p[1]);
    d.add(sorted(o));
}
using Desc = std::vector<double>;
static std::vector<Desc> descs(Rng& r, std::size_t n) { std::vector<Desc> v(n); for (auto& x : v) { x.resize(16); for (auto& q : x) q = (double)r.range(0, 9); } return v; }
POLICY_OP(find_matches)
{
    const auto a = descs(r, r.size(5, 40)), b = descs(r, r.size(5, 40));
    d.add(sorted(td::find_raw_matches(pol, a, b, 0.9)));
    d.add(sorted(td::find_keypoint_matches(pol, a, b, 0.9)));
    d.add(sorted(td::find_robust_matches(pol, a, b, 0.9)));
}
struct Near
{
    template<class T> auto operator()(const Image<T>& im, const double x, const double y) const
    {
        if (!(x >= 0 && y >= 0 && x <= (double)im.getWidth() - 1 && y <= (double)im.getHeight() - 1)) return T{};
        return im.at((std::size_t)std::floor(x + 0.5), (std::size_t)std::floor(y + 0.5));
    }
};
static td::linalg::Matrix<double> matrix(Rng& r)
{
    td::linalg::Matrix<double> H(3, 3);
    const double v[9] = { r.real(0.8, 1.2), r.real(-0.1, 0.1), r.real(-8, 8), r.real(-0.1, 0.1), r.real(0.8, 1.2), r.real(-8, 8), r.real(-1e-3, 1e-3), r.real(-1e-3, 1e-3), 1 };
    for (int i = 0; i < 9; ++i) H.at(i / 3, i % 3) = v[i];
    return H;
}
POLICY_OP(warp_perspective)
{
    const auto a = rnd_image<double>(r, shape(r, 6, 24)); const auto H = matrix(r);
    d.add(td::warp_perspective<double, double, Near>{}(pol, a, H, r.size(4, 24), r.size(4, 24), Near{}));
    d.add(td::warp_perspective<double, double, Near>{}(a, H, r.size(4, 24), r.size(4, 24), Near{}));
}
POLICY_OP(create_stitched_image)
{
    const auto a = rnd_image<RGB>(r, shape(r, 6, 20)), b = rnd_image<RGB>(r, shape(r, 6, 20)); const auto H = matrix(r);
    d.add(td::create_stitched_image<P&, double, std::remove_cvref_t<P>, Near>(pol, a, b, H, td::warp_perspective<RGB, double, Near>{}, Near{}));
    d.add(td::create_stitched_image<double, Near>(a, b, H, td::warp_perspective<RGB, double, Near>{}, Near{}));
}
