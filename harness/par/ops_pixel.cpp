#include "par/ops.hpp"
POLICY_OP(apply_each_pixel) { const auto a = rnd_image<int>(r, shape(r)); d.add(td::apply_each_pixel(pol, a, [](int x, int k) { return x * k + 1; }, 3)); }
PLAIN_OP(apply_each_pixel_openmp) { const auto a = rnd_image<double>(r, shape(r)); d.add(td::apply_each_pixel_openmp(a, [](double x) { return x * 0.5; })); }
PLAIN_OP(apply_threshold_openmp) { const auto a = rnd_image<int>(r, shape(r)); d.add(td::apply_threshold_openmp(a, 7)); }
POLICY_OP(pixelwise_transform) { const auto a = rnd_image<double>(r, shape(r)); d.add(td::pixelwise_transform(pol, [](double x) { return x * x + 1; }, a)); }
POLICY_OP(negate) { const auto a = rnd_image<double>(r, shape(r)); d.add(td::negate(pol, a)); }
POLICY_OP(abs_) { const auto a = rnd_image<double>(r, shape(r)); d.add(td::abs(pol, a)); }
POLICY_OP(pow_) { const auto a = rnd_image<double>(r, shape(r)); d.add(td::pow(pol, a, 2.0)); }
POLICY_OP(difference) { const Sz s = shape(r); const auto a = rnd_image<double>(r, s), b = rnd_image<double>(r, s); d.add(td::difference(pol, a.getImageData(), b.getImageData())); }
POLICY_OP(to_complex) { const auto a = rnd_image<double>(r, shape(r)); d.add(td::to_complex(pol, a)); }
POLICY_OP(to_double) { const auto a = rnd_image<std::uint8_t>(r, shape(r)); d.add(td::to_double(pol, a)); }
POLICY_OP(sum_) { const auto a = rnd_image<double>(r, shape(r)); d.add(td::sum(pol, a)); d.tol = 1e-7; }
POLICY_OP(mean_) { const auto a = rnd_image<double>(r, shape(r)); d.add(td::mean(pol, a)); }
POLICY_OP(count_) { const auto a = rnd_image<std::uint8_t>(r, shape(r)); d.add((std::size_t)td::count(pol, a, (std::uint8_t)255)); }
POLICY_OP(replace_) { const auto a = rnd_image<std::uint8_t>(r, shape(r)); d.add(td::replace(pol, a, (std::uint8_t)255, (std::uint8_t)9)); }
POLICY_OP(euclidean_distance) { const Sz s = shape(r); const auto a = rnd_image<double>(r, s), b = rnd_image<double>(r, s); d.add(td::euclidean_distance(pol, a, b)); }
POLICY_OP(euclidean_distance_rgb) { const Sz s = shape(r); const auto a = rnd_image<RGB>(r, s), b = rnd_image<RGB>(r, s); d.add(td::euclidean_distance(pol, a, b)); }
POLICY_OP(rgb2hsv) { const auto a = rnd_image<RGB>(r, shape(r)); d.add(td::rgb2hsv(pol, a)); }
POLICY_OP(hsv2rgb) { const auto a = rnd_image<HSV>(r, shape(r)); d.add(td::hsv2rgb(pol, a)); }
POLICY_OP(set_all_value) { auto a = rnd_image<double>(r, shape(r)); a.setAllValue(pol, 3.5); d.add(a); }
POLICY_OP(image_count) { const auto a = rnd_image<double>(r, shape(r)); d.add((std::size_t)a.count(pol)); }
PLAIN_OP(construct_planes)
{
    const Sz s = shape(r);
    const auto a = rnd_image<std::uint8_t>(r, s), b = rnd_image<std::uint8_t>(r, s), c = rnd_image<std::uint8_t>(r, s);
    const auto x = rnd_image<double>(r, s), y = rnd_image<double>(r, s), z = rnd_image<double>(r, s);
    const auto rgb = td::constructRGB(a, b, c); const auto rd = td::constructRGBDOUBLE(x, y, z); const auto hs = td::constructHSV(x, y, z); const auto mc = td::constructMultiChannel(x, y, z);
    d.add(rgb); d.add(rd); d.add(hs); d.add(td::constructMultiChannel(x, y)); d.add(mc);
    for (std::size_t k = 0; k < 3; ++k) { d.add(td::getPlane(rgb, k)); d.add(td::getPlane(rd, k)); d.add(td::getPlane(hs, k)); d.add(td::getPlane(mc, k)); }
    d.add(td::convert_image<RGB_DOUBLE>(rgb));
    d.add(td::convert_image<RGB>(td::convert_image<RGB_DOUBLE>(rgb)));
}
PLAIN_OP(apply_each_rgb)
{
    const Sz s = shape(r, 2, 20);
    const auto a = rnd_image<RGB>(r, s), b = rnd_image<RGB>(r, s);
    d.add(td::apply_each(a, [](auto&& p) { return td::pixelwise_transform([](auto v) { return (std::uint8_t)(255 - v); }, p); }));
    d.add(td::apply_each(a, b, [](auto&& p, auto&& q) { return td::pixelwise_transform([](auto u, auto v) { return (std::uint8_t)((u + v) / 2); }, p, q); }));
}
PLAIN_OP(apply_each_hsv)
{
    const auto a = rnd_image<HSV>(r, shape(r, 2, 20));
    d.add(td::apply_each(a, [](auto&& p) { return td::pixelwise_transform([](auto v) { return v * 0.25; }, p); }));
}
PLAIN_OP(apply_each_mc)
{
    const auto a = rnd_image<MultiChannel<double, 3>>(r, shape(r, 2, 20));
    d.add(td::apply_each(a, [](auto&& p) { return td::pixelwise_transform([](auto v) { return v + 1; }, p); }));
}
