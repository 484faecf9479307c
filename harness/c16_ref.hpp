#ifndef C16_REF_HPP
#define C16_REF_HPP
#include "img.hpp"
#include "image_operations.h"
namespace vp
{
    using ld = long double;
    inline const TinyDIP::BoundaryCondition BC[] = { TinyDIP::BoundaryCondition::constant, TinyDIP::BoundaryCondition::mirror, TinyDIP::BoundaryCondition::replicate };
    inline const char* const BCN[] = { "constant", "mirror", "replicate" };
    // index of the source pixel behind position p, -1: the constant
    inline long long behind(long long p, long long n, int mode)
    {
        if (p >= 0 && p < n) return p;
        if (mode == 0) return -1;
        if (mode == 1) return p < 0 ? -p : 2 * (n - 1) - p;
        return p < 0 ? 0 : n - 1;
    }
    template<class T> T padded_at(const Ref<T>& a, long long x, long long y, int mode, T v)
    {
        const long long sx = behind(x, (long long)a.w(), mode), sy = behind(y, (long long)a.h(), mode);
        return sx < 0 || sy < 0 ? v : a((std::size_t)sx, (std::size_t)sy);
    }
    inline std::vector<ld> mask(std::size_t n, ld sigma)
    {
        std::vector<ld> m(n);
        ld sum = 0;
        for (std::size_t i = 0; i < n; ++i) { const ld d = (ld)i - (ld)(n / 2); m[i] = std::exp(-d * d / (2 * sigma * sigma)); sum += m[i]; }
        for (auto& x : m) x /= sum;
        return m;
    }
    // the normalised separable Gaussian, centred at floor(n/2)
    template<class T> Ref<ld> ref_gauss(const Ref<T>& a, ld s1, ld s2, std::size_t f1, std::size_t f2, int mode, T v)
    {
        const auto mx = mask(f1, s1), my = mask(f2, s2);
        Ref<ld> o(a.size, 0);
        for (std::size_t y = 0; y < a.h(); ++y) for (std::size_t x = 0; x < a.w(); ++x)
        {
            ld acc = 0;
            for (std::size_t j = 0; j < f2; ++j) for (std::size_t i = 0; i < f1; ++i)
                acc += mx[i] * my[j] * (ld)padded_at(a, (long long)x + (long long)(f1 / 2) - (long long)i, (long long)y + (long long)(f2 / 2) - (long long)j, mode, v);
            o(x, y) = acc;
        }
        return o;
    }
}
#endif
