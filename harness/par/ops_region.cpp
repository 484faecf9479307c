#include "par/ops.hpp"
static const td::BoundaryCondition BC[3] = { td::BoundaryCondition::constant, td::BoundaryCondition::mirror, td::BoundaryCondition::replicate };
POLICY_OP(subimage)
{
    const Sz s = shape(r, 4, 30), n{ r.size(1, 20), r.size(1, 20) }, ce{ r.size(0, s[0] - 1), r.size(0, s[1] - 1) };
    const auto a = rnd_image<double>(r, s);
    d.add(td::subimage(pol, a, n, ce, -1.0));
    d.add(td::subimage(pol, a, n[0], n[1], ce[0], ce[1], -1.0));
}
PLAIN_OP(subimage2)
{
    const Sz s = shape(r, 4, 30);
    const auto a = rnd_image<double>(r, s);
    const std::size_t x = r.size(0, s[0] - 1), y = r.size(0, s[1] - 1);
    d.add(td::subimage2(a, r.size(0, x), x, r.size(0, y), y));
}
POLICY_OP(paste2D) { const auto a = rnd_image<double>(r, shape(r)), b = rnd_image<double>(r, shape(r)); d.add(td::paste2D(pol, a, b, r.size(0, 30), r.size(0, 30), 0.5)); }
POLICY_OP(transpose) { const auto a = rnd_image<double>(r, shape(r)); d.add(td::transpose(pol, a)); }
PLAIN_OP(flips) { const auto a = rnd_image<double>(r, shape(r)); d.add(td::flip_horizontal(a)); d.add(td::flip_vertical(a)); d.add(td::flip_horizontal_vertical(a)); }
POLICY_OP(padding)
{
    const Sz s = shape(r, 4, 24);
    const auto a = rnd_image<double>(r, s);
    for (auto b : BC) d.add(td::generate_padded_image(pol, a, r.size(0, s[0] - 1), r.size(0, s[1] - 1), b, 2.0));
}
POLICY_OP(split_overlap)
{
    const auto a = rnd_image<double>(r, shape(r, 8, 24));
    for (auto& row : td::split_overlap(pol, a, 2, 3, 2, 1, BC[r.size(0, 2)], 1.0)) for (auto& im : row) d.add(im);
}
POLICY_OP(add_border_2d) { const auto a = rnd_image<double>(r, shape(r)); d.add(td::add_border_2d(pol, a, 3, 7.0)); }
POLICY_OP(centre) { const auto a = rnd_image<double>(r, shape(r)); for (auto x : td::get_center_location(pol, a)) d.add(x); d.add(td::get_center_pixel(pol, a)); }
PLAIN_OP(draw_point) { const Sz s = shape(r); const auto a = rnd_image<RGB>(r, s); d.add(td::draw_point(a, td::Point<2>{ { r.size(0, s[0] - 1), r.size(0, s[1] - 1) } }, RGB{ { 1, 2, 3 } }, (std::size_t)r.range(1, 9))); }
PLAIN_OP(resize_nearest_neighbor) { const auto a = rnd_image<double>(r, shape(r)); d.add(td::resize_nearest_neighbor(a, r.size(1, 40), r.size(1, 40))); }
