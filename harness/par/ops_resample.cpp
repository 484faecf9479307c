#include "par/ops.hpp"
POLICY_OP(lanczos_resample) { const auto a = rnd_image<double>(r, shape(r, 4, 24)); d.add(td::lanczos_resample(pol, a, r.size(1, 24), r.size(1, 24), 3)); }
PLAIN_OP(lanczos_resample_plain) { const auto a = rnd_image<double>(r, shape(r, 4, 24)); d.add(td::lanczos_resample(a, r.size(1, 24), r.size(1, 24))); }
POLICY_OP(lanczos_rgb) { const auto a = rnd_image<RGB>(r, shape(r, 4, 16)); d.add(td::lanczos_resample(pol, a, r.size(1, 16), r.size(1, 16), 2)); }
POLICY_OP(gaussian_fisheye) { const auto a = rnd_image<double>(r, shape(r, 4, 20)); d.add(td::gaussian_fisheye(pol, a, r.real(2, 30))); }
PLAIN_OP(gaussian_fisheye_plain) { const auto a = rnd_image<double>(r, shape(r, 4, 20)); d.add(td::gaussian_fisheye(a, r.real(2, 30))); }
