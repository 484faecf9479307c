// part 2 of C27
#define VP_NO_MAIN
#include "c27_math.hpp"
MATH(tgamma, std::tgamma(x))
MATH(ceil, std::ceil(x))
MATH(floor, std::floor(x))
MATH(trunc, std::trunc(x))
MATH(nearbyint, std::nearbyint(x))
MATH(rint, std::rint(x))
MATH(ilogb, std::ilogb(x))
MATH(logb, std::logb(x))
MATH(fpclassify, std::fpclassify(x))
MATH(isfinite, std::isfinite(x))
MATH(isinf, std::isinf(x))
MATH(isnan, std::isnan(x))
MATH(isnormal, std::isnormal(x))
MATH(signbit, std::signbit(x))
MATH(exp, std::exp(x))
MATH(exp2, std::exp2(x))
MATH(expm1, std::expm1(x))
MATH(log, std::log(x))
MATH(log10, std::log10(x))
MATH(log1p, std::log1p(x))
MATH(log2, std::log2(x))
template<class V> static void all(Rng& r, Case& c, const char* tn)
{
    const V v = value<V>(r);
    std::string t; for (auto x : v.channels) t += cat(x, " ");
    c.describe(tn, " ", t);
    const int pol = (int)r.range(0, 1);
    t_tgamma(v, pol);
    t_ceil(v, pol);
    t_floor(v, pol);
    t_trunc(v, pol);
    t_nearbyint(v, pol);
    t_rint(v, pol);
    t_ilogb(v, pol);
    t_logb(v, pol);
    t_fpclassify(v, pol);
    t_isfinite(v, pol);
    t_isinf(v, pol);
    t_isnan(v, pol);
    t_isnormal(v, pol);
    t_signbit(v, pol);
    t_exp(v, pol);
    t_exp2(v, pol);
    t_expm1(v, pol);
    t_log(v, pol);
    t_log10(v, pol);
    t_log1p(v, pol);
    t_log2(v, pol);
}
VP_SECTION("mc_double_3_2", 600, 8000) { all<MultiChannel<double, 3>>(r, c, "MultiChannel<double, 3>"); }
VP_SECTION("mc_double_5_2", 300, 4000) { all<MultiChannel<double, 5>>(r, c, "MultiChannel<double, 5>"); }
VP_SECTION("mc_float_2_2", 300, 4000) { all<MultiChannel<float, 2>>(r, c, "MultiChannel<float, 2>"); }
VP_SECTION("mc_double_1_2", 200, 2000) { all<MultiChannel<double, 1>>(r, c, "MultiChannel<double, 1>"); }
