#ifndef C13_HPP
#define C13_HPP
#include "img.hpp"
#include "image_operations.h"
#include <complex>
namespace vp
{
    using ld = long double;
    using cld = std::complex<long double>;
    template<class T> cld wide(const T& v) { if constexpr (is_cplx<T>::value) return cld(v.real(), v.imag()); else return cld((ld)v, 0); }
    // Compare with a real-valued reference; integral results are truncated, so a reference within eps of an integer admits both neighbours.
    template<class T> void near_value(const T& got, const cld& want, ld tol, const std::string& key, const std::string& where)
    {
        if constexpr (is_cplx<T>::value)
            require(std::abs(cld(got.real(), got.imag()) - want) <= tol, key, where, ": got ", got, ", expected ", (double)want.real(), "+", (double)want.imag(), "i");
        else if constexpr (std::is_floating_point_v<T>)
            require(std::fabs((ld)got - want.real()) <= tol, key, where, ": got ", got, ", expected ", (double)want.real());
        else
        {
            ld w = std::clamp(want.real(), (ld)std::numeric_limits<T>::lowest(), (ld)std::numeric_limits<T>::max());
            const ld lo = std::clamp(std::trunc(w - tol), (ld)std::numeric_limits<T>::lowest(), (ld)std::numeric_limits<T>::max());
            const ld hi = std::clamp(std::trunc(w + tol), (ld)std::numeric_limits<T>::lowest(), (ld)std::numeric_limits<T>::max());
            require((ld)got >= lo && (ld)got <= hi, key, where, ": got ", (double)got, ", expected the truncation of ", (double)w);
        }
    }
    template<class T> ld largest(const Image<T>& im) { ld m = 1; for (auto& v : im.getImageData()) m = std::max(m, std::abs(wide(v))); return m; }
    inline std::size_t clampi(long long v, std::size_t n) { return (std::size_t)std::clamp<long long>(v, 0, (long long)n - 1); }
    inline cld cub(cld v0, cld v1, cld v2, cld v3, ld f)
    {
        const cld A = (v3 - v2) - (v0 - v1), B = (v0 - v1) - A, C = v2 - v0;
        return v1 + f * (C + f * (B + f * A));
    }
    template<class T> cld ref_bicubic(const Image<T>& im, std::size_t x, std::size_t y, std::size_t W, std::size_t H)
    {
        const std::size_t w = im.getWidth(), h = im.getHeight();
        const long long fx = (long long)((unsigned long long)x * w / W), fy = (long long)((unsigned long long)y * h / H);
        const ld rx = (ld)((unsigned long long)x * w % W) / (ld)W, ry = (ld)((unsigned long long)y * h % H) / (ld)H;
        cld rows[4];
        for (int j = -1; j <= 2; ++j)
        {
            cld v[4];
            for (int i = -1; i <= 2; ++i) v[i + 1] = wide(im.getImageData()[clampi(fy + j, h) * w + clampi(fx + i, w)]);
            rows[j + 1] = cub(v[0], v[1], v[2], v[3], rx);
        }
        return cub(rows[0], rows[1], rows[2], rows[3], ry);
    }
    inline ld lker(ld x, int a)
    {
        if (std::fabs(x) < 1e-18L) return 1;
        if (std::fabs(x) >= a) return 0;
        const ld p = 3.14159265358979323846264338327950288L * x;
        return a * std::sin(p) * std::sin(p / a) / (p * p);
    }
    template<class T> cld ref_lanczos(const Image<T>& im, std::size_t x, std::size_t y, std::size_t W, std::size_t H, int a)
    {
        const std::size_t w = im.getWidth(), h = im.getHeight();
        const ld xo = ((ld)x + 0.5L) * (ld)w / (ld)W - 0.5L, yo = ((ld)y + 0.5L) * (ld)h / (ld)H - 0.5L;
        const long long bx = (long long)std::floor(xo), by = (long long)std::floor(yo);
        cld sum = 0; ld tot = 0;
        for (long long j = by - a - 1; j <= by + a + 1; ++j) for (long long i = bx - a - 1; i <= bx + a + 1; ++i)
        {
            const ld wt = lker(xo - i, a) * lker(yo - j, a);
            sum += wide(im.getImageData()[clampi(j, h) * w + clampi(i, w)]) * wt;
            tot += wt;
        }
        return sum / tot;
    }
}
#endif
