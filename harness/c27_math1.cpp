// part 1 of C27
#include "c27_math.hpp"
MATH(abs, std::abs(x))
MATH(sqrt, std::sqrt(x))
MATH(cbrt, std::cbrt(x))
MATH(sin, std::sin(x))
MATH(cos, std::cos(x))
MATH(tan, std::tan(x))
MATH(cot, 1 / std::tan(x))
MATH(sec, 1 / std::cos(x))
MATH(csc, 1 / std::sin(x))
MATH(asin, std::asin(x))
MATH(acos, std::acos(x))
MATH(atan, std::atan(x))
MATH(sinh, std::sinh(x))
MATH(cosh, std::cosh(x))
MATH(tanh, std::tanh(x))
MATH(asinh, std::asinh(x))
MATH(acosh, std::acosh(x))
MATH(atanh, std::atanh(x))
MATH(erf, std::erf(x))
MATH(erfc, std::erfc(x))
MATH(lgamma, std::lgamma(x))
template<class V> static void all(Rng& r, Case& c, const char* tn)
{
    const V v = value<V>(r);
    std::string t; for (auto x : v.channels) t += cat(x, " ");
    c.describe(tn, " ", t);
    const int pol = (int)r.range(0, 1);
    t_abs(v, pol);
    t_sqrt(v, pol);
    t_cbrt(v, pol);
    t_sin(v, pol);
    t_cos(v, pol);
    t_tan(v, pol);
    t_cot(v, pol);
    t_sec(v, pol);
    t_csc(v, pol);
    t_asin(v, pol);
    t_acos(v, pol);
    t_atan(v, pol);
    t_sinh(v, pol);
    t_cosh(v, pol);
    t_tanh(v, pol);
    t_asinh(v, pol);
    t_acosh(v, pol);
    t_atanh(v, pol);
    t_erf(v, pol);
    t_erfc(v, pol);
    t_lgamma(v, pol);
}
VP_SECTION("mc_double_3_1", 600, 8000) { all<MultiChannel<double, 3>>(r, c, "MultiChannel<double, 3>"); }
VP_SECTION("mc_double_5_1", 300, 4000) { all<MultiChannel<double, 5>>(r, c, "MultiChannel<double, 5>"); }
VP_SECTION("mc_float_2_1", 300, 4000) { all<MultiChannel<float, 2>>(r, c, "MultiChannel<float, 2>"); }
VP_SECTION("mc_double_1_1", 200, 2000) { all<MultiChannel<double, 1>>(r, c, "MultiChannel<double, 1>"); }
