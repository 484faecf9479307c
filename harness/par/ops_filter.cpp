#include "par/ops.hpp"
static const td::BoundaryCondition BC[3] = { td::BoundaryCondition::constant, td::BoundaryCondition::mirror, td::BoundaryCondition::replicate };
POLICY_OP(conv2) { const auto a = rnd_image<double>(r, shape(r, 2, 20)), b = rnd_image<double>(r, shape(r, 1, 6)); d.add(td::conv2(pol, a, b)); d.add(td::conv2(pol, a, b, true)); }
PLAIN_OP(conv2_plain) { const auto a = rnd_image<double>(r, shape(r, 2, 20)), b = rnd_image<double>(r, shape(r, 1, 6)); d.add(td::conv2(a, b)); }
PLAIN_OP(bicubic) { const auto a = rnd_image<double>(r, shape(r)); d.add(td::copyResizeBicubic(a, r.size(1, 40), r.size(1, 40))); }
POLICY_OP(gaussianFigure2D)
{
    const Sz s = shape(r, 3, 30);
    d.add(td::gaussianFigure2D(pol, s[0], s[1], r.size(0, s[0] - 1), r.size(0, s[1] - 1), 4.0, 9.0, 0.3, 1.0));
}
PLAIN_OP(gaussianFigure2D_plain) { const Sz s = shape(r, 3, 30); d.add(td::gaussianFigure2D(s[0], s[1], r.size(0, s[0] - 1), r.size(0, s[1] - 1), 4.0, 9.0, 0.3)); }
POLICY_OP(imgaussfilt)
{
    const auto a = rnd_image<double>(r, shape(r, 8, 24));
    d.add(td::imgaussfilt(pol, a, r.real(0.5, 2), r.real(0.5, 2), 5, 3, BC[r.size(0, 2)], 1.0));
}
POLICY_OP(windowed_filter)
{
    const auto a = rnd_image<double>(r, shape(r, 4, 20));
    const Sz w{ r.size(1, 3), r.size(1, 3) };
    std::mutex m; double last = 0;
    d.add(td::windowed_filter(pol, a, w, [](const Image<double>& x) { double s = 0; for (auto v : x.getImageData()) s += v; return s; }, BC[r.size(0, 2)], 0.0, [&](double p) { std::lock_guard g(m); last = std::max(last, p); }));
    d.add(last);
}
POLICY_OP(bilateral_filter)
{
    const auto a = rnd_image<double>(r, shape(r, 4, 16));
    const Sz w{ r.size(1, 3), r.size(1, 3) };
    d.add(td::bilateral_filter(pol, a, w, [](double x) { return std::exp(-x * x / 800); }, [](double x) { return std::exp(-x * x / 4); }, BC[r.size(0, 2)], nullptr, 0.0));
}
PLAIN_OP(dct2) { const auto a = rnd_image<double>(r, shape(r, 2, 8)); const auto f = td::dct2(a); d.add(f); d.add(td::idct2(f)); d.tol = 1e-8; }
POLICY_OP(dct3_one_plane)
{
    const Sz s = shape(r, 2, 6);
    std::vector<Image<double>> v; for (int i = 0; i < 3; ++i) v.push_back(rnd_image<double>(r, s));
    d.add(td::dct3_one_plane(pol, v, r.size(0, 2)));
}
PLAIN_OP(dct3) { const Sz s = shape(r, 2, 6); std::vector<Image<double>> v; for (int i = 0; i < 3; ++i) v.push_back(rnd_image<double>(r, s)); for (std::size_t k = 0; k < 3; ++k) { d.add(td::dct3_one_plane(v, k)); d.add(td::idct3_one_plane(v, k)); } }
POLICY_OP(estimate_gaussian)
{
    const Sz s = shape(r, 12, 20);
    const auto im = td::gaussianFigure2D(s[0], s[1], s[0] / 2, s[1] / 2, 4.0, 6.0, 0.0);
    const auto q = td::estimate_gaussian_parameters_2d(pol, im);
    d.tol = 1e-5;
    d.add(q.sigma_x); d.add(q.sigma_y);
}
