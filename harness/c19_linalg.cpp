// C19: matrices, eigenvectors, null vectors, inverses and linear systems solve what they claim to.
#include "img.hpp"
#include "image_operations.h"
#include "linear_algebra.h"
using namespace vp;
namespace la = TinyDIP::linalg;
using LD = long double;

template<class T> la::Matrix<T> rnd_matrix(Rng& r, std::size_t n, std::size_t m, double scale = 10)
{
    la::Matrix<T> a(n, m);
    const int mode = (int)r.range(0, 4);
    for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < m; ++j)
        a.at(i, j) = (T)(mode == 0 ? (double)r.range(-5, 5) : mode == 1 && r.chance(0.6) ? 0.0 : r.real(-scale, scale));
    return a;
}
template<class T> std::vector<T> flat(const la::Matrix<T>& a)
{
    std::vector<T> v;
    for (std::size_t i = 0; i < a.rows(); ++i) for (std::size_t j = 0; j < a.cols(); ++j) v.push_back(a.at(i, j));
    return v;
}
template<class T> double norm(const la::Matrix<T>& a) { LD s = 0; for (auto v : flat(a)) s += (LD)v * v; return (double)std::sqrt(s); }

template<class T> void products(Rng& r, Case& c, const char* tn)
{
    const std::size_t top = r.chance(0.04) ? 40 : 9, n = r.size(1, top), m = r.size(1, top), k = r.size(1, top);
    c.describe(tn, " ", n, "x", m, " * ", m, "x", k);
    const auto a = rnd_matrix<T>(r, n, m), b = rnd_matrix<T>(r, m, k);
    const auto fa = flat(a), fb = flat(b);
    const auto t = la::transpose(a);
    require(t.rows() == m && t.cols() == n, "linalg/transpose", "shape ", t.rows(), "x", t.cols());
    for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < m; ++j) require(t.at(j, i) == a.at(i, j), "linalg/transpose", "at ", i, ",", j);
    const auto p = la::multiply(a, b);
    require(p.rows() == n && p.cols() == k, "linalg/multiply", "shape ", p.rows(), "x", p.cols());
    for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < k; ++j)
    {
        LD s = 0, mag = 0;
        for (std::size_t q = 0; q < m; ++q) { s += (LD)a.at(i, q) * b.at(q, j); mag += std::fabs((LD)a.at(i, q) * b.at(q, j)); }
        require(std::fabs((LD)p.at(i, j) - s) <= (std::is_same_v<T, float> ? 1e-5L : 1e-13L) * (mag + 1e-6L), "linalg/multiply", "at ", i, ",", j, " got ", p.at(i, j), " want ", (double)s);
        event("products");
    }
    if (n != m) require(throws([&] { la::multiply(a, a); }), "linalg/multiply-shape", "incompatible shapes accepted");
    require(fa == flat(a) && fb == flat(b), "linalg/input-modified", "an operand changed");
}
VP_SECTION("products_double", 1200, 20000) { products<double>(r, c, "double"); }
VP_SECTION("products_float", 400, 8000) { products<float>(r, c, "float"); }

VP_SECTION("invert", 4000, 60000)
{
    auto m = rnd_matrix<double>(r, 3, 3, r.pick(std::vector<double>{ 1, 10, 1000 }));
    const bool singular = r.chance(0.2);
    if (singular)
    {
        const int i = (int)r.range(0, 2), j = (i + 1) % 3, k = (i + 2) % 3;
        for (int q = 0; q < 3; ++q) { for (int w = 0; w < 3; ++w) m.at(w, q) = (double)r.range(-6, 6); }
        const double f = (double)r.range(-2, 2), g = (double)r.range(-2, 2);
        for (int q = 0; q < 3; ++q) m.at(i, q) = f * m.at(j, q) + g * m.at(k, q);
    }
    std::string d; for (auto v : flat(m)) d += cat(v, " ");
    c.describe("3x3 ", d);
    LD M[3][3]; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) M[i][j] = m.at(i, j);
    const LD det = M[0][0] * (M[1][1] * M[2][2] - M[1][2] * M[2][1]) - M[0][1] * (M[1][0] * M[2][2] - M[1][2] * M[2][0]) + M[0][2] * (M[1][0] * M[2][1] - M[1][1] * M[2][0]);
    const auto inv = la::invert(m);
    if (det == 0 && singular) { require(inv.empty(), "linalg/invert-singular", "a singular matrix was inverted"); event("singular"); return; }
    if (std::fabs(det) < 1e-5L) { c.trivial = true; return; }
    require(!inv.empty() && inv.rows() == 3 && inv.cols() == 3, "linalg/invert", "an invertible matrix was refused, determinant ", (double)det);
    const double tol = 1e-12 * (norm(m) * norm(inv) + 1) * (1 + norm(m) * norm(m) * norm(m) / std::fabs((double)det));
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)
    {
        LD s = 0, t = 0;
        for (int q = 0; q < 3; ++q) { s += M[i][q] * inv.at(q, j); t += (LD)inv.at(i, q) * M[q][j]; }
        require(std::fabs(s - (i == j)) <= tol && std::fabs(t - (i == j)) <= tol, "linalg/invert", "product with the inverse is ", (double)s, " / ", (double)t, " at ", i, ",", j);
    }
    event("inverses");
    la::Matrix<double> other(r.size(1, 2), 3);
    require(throws([&] { la::invert(other); }), "linalg/invert-shape", "a non-3x3 matrix was accepted");
}

// independent cyclic Jacobi in long double
static std::vector<LD> eigen_ref(std::vector<std::vector<LD>> a)
{
    const std::size_t n = a.size();
    for (int sweep = 0; sweep < 60; ++sweep)
        for (std::size_t p = 0; p < n; ++p) for (std::size_t q = p + 1; q < n; ++q)
        {
            if (a[p][q] == 0) continue;
            const LD th = (a[q][q] - a[p][p]) / (2 * a[p][q]);
            const LD t = (th >= 0 ? 1 : -1) / (std::fabs(th) + std::sqrt(th * th + 1)), co = 1 / std::sqrt(t * t + 1), si = t * co;
            for (std::size_t k = 0; k < n; ++k) { const LD x = a[k][p], y = a[k][q]; a[k][p] = co * x - si * y; a[k][q] = si * x + co * y; }
            for (std::size_t k = 0; k < n; ++k) { const LD x = a[p][k], y = a[q][k]; a[p][k] = co * x - si * y; a[q][k] = si * x + co * y; }
        }
    std::vector<LD> e;
    for (std::size_t i = 0; i < n; ++i) e.push_back(a[i][i]);
    std::sort(e.begin(), e.end());
    return e;
}
VP_SECTION("eigen", 1500, 20000)
{
    const std::size_t n = r.chance(0.03) ? r.size(11, 20) : r.size(1, 10);
    la::Matrix<double> a(n, n);
    const int mode = (int)r.range(0, 4);
    const double scale = r.pick(std::vector<double>{ 0.01, 1, 100, 1e5 });
    for (std::size_t i = 0; i < n; ++i) for (std::size_t j = i; j < n; ++j)
        a.at(i, j) = a.at(j, i) = mode == 0 ? (double)r.range(-3, 3) : mode == 1 && i != j ? 0 : mode == 2 && r.chance(0.5) ? 0 : mode == 3 ? scale : r.real(-scale, scale);
    c.describe("symmetric ", n, " mode ", mode, " scale ", scale, " first ", a.at(0, n - 1));
    std::vector<double> ev; la::Matrix<double> V;
    const auto before = flat(a);
    la::jacobi_eigen_solver(a, ev, V);
    require(ev.size() == n && V.rows() == n && V.cols() == n, "linalg/eigen-shape", ev.size(), " eigenvalues for ", n);
    require(before == flat(a), "linalg/input-modified", "the matrix changed");
    const double nm = norm(a), tol = 1e-8 + 1e-10 * nm;
    for (std::size_t j = 0; j < n; ++j)
    {
        for (std::size_t k = 0; k < n; ++k)
        {
            LD s = 0; for (std::size_t i = 0; i < n; ++i) s += (LD)V.at(i, j) * V.at(i, k);
            require(std::fabs(s - (j == k)) < 1e-10L, "linalg/eigen-orthogonal", "columns ", j, " and ", k, " have product ", (double)s);
        }
        for (std::size_t i = 0; i < n; ++i)
        {
            LD s = 0; for (std::size_t k = 0; k < n; ++k) s += (LD)a.at(i, k) * V.at(k, j);
            require(std::fabs(s - (LD)ev[j] * V.at(i, j)) <= tol * 3, "linalg/eigen", "A v differs from lambda v by ", (double)std::fabs(s - (LD)ev[j] * V.at(i, j)), " for eigenvalue ", ev[j]);
        }
        event("eigenpairs");
    }
    if (n > 1) { la::Matrix<double> bad(n, n - 1); require(throws([&] { la::jacobi_eigen_solver(bad, ev, V); }), "linalg/eigen-shape", "a non-square matrix was accepted"); }
}
VP_SECTION("null_vector", 700, 12000)
{
    const std::size_t n = r.size(2, 9), m = r.size(2, 12);
    la::Matrix<double> a(m, n);
    const bool exact = r.chance(0.5);
    std::vector<double> h0(n); double hn = 0;
    for (auto& v : h0) { v = r.real(-1, 1); hn += v * v; }
    for (std::size_t i = 0; i < m; ++i)
    {
        double dot = 0;
        for (std::size_t j = 0; j < n; ++j) { a.at(i, j) = r.real(-5, 5); dot += a.at(i, j) * h0[j]; }
        if (exact && hn > 1e-3) for (std::size_t j = 0; j < n; ++j) a.at(i, j) -= dot * h0[j] / hn;
    }
    c.describe(m, "x", n, exact ? " with a null vector " : " general ", a.at(0, 0));
    const auto before = flat(a);
    const auto h = la::svd_solve_ah_zero(a);
    require(h.size() == n, "linalg/null-shape", h.size(), " components for ", n);
    require(before == flat(a), "linalg/input-modified", "the matrix changed");
    LD hh = 0; for (auto v : h) hh += (LD)v * v;
    require(std::fabs(hh - 1) < 1e-9L, "linalg/null-norm", "the solution has squared norm ", (double)hh);
    std::vector<std::vector<LD>> ata(n, std::vector<LD>(n, 0));
    for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < n; ++j) for (std::size_t k = 0; k < m; ++k) ata[i][j] += (LD)a.at(k, i) * a.at(k, j);
    LD res = 0;
    for (std::size_t i = 0; i < m; ++i) { LD s = 0; for (std::size_t j = 0; j < n; ++j) s += (LD)a.at(i, j) * h[j]; res += s * s; }
    const LD best = std::max((LD)0, eigen_ref(ata)[0]);
    require(res <= best + 1e-7L + 1e-11L * (LD)norm(a) * norm(a), "linalg/null", "||Ah||^2 is ", (double)res, ", the minimum over unit vectors is ", (double)best);
    event("null_vectors");
}

template<std::size_t N, class T> void solve(Rng& r, Case& c)
{
    std::array<std::array<T, N>, N> A{}; std::array<T, N> b{};
    const int mode = (int)r.range(0, 5);
    for (std::size_t i = 0; i < N; ++i)
    {
        for (std::size_t j = 0; j < N; ++j)
            A[i][j] = (T)(mode == 0 ? (double)r.range(-4, 4) : mode == 1 && i == j ? 0.0 : mode == 2 && i == j ? 1e-9 : mode == 3 && j + 1 != N - i && r.chance(0.6) ? 0.0 : r.real(-10, 10));
        b[i] = (T)r.real(-10, 10);
    }
    bool dup = false;
    if (mode == 4 && N > 1)
    {
        for (auto& row : A) for (auto& v : row) v = (T)r.range(-4, 4);
        const std::size_t i = r.size(0, N - 1), j = (i + r.size(1, N - 1)) % N;
        const T f = (T)r.range(-2, 2);
        for (std::size_t k = 0; k < N; ++k) A[i][k] = f * A[j][k];
        dup = true;
    }
    const bool own = r.chance(0.3);
    const T thr = own ? (T)r.real(0.05, 3) : (T)1e-12;
    std::string d; for (auto& row : A) for (auto v : row) d += cat(v, " ");
    c.describe(N, "x", N, " thr=", thr, " ", d);
    // pivots of elimination with row exchanges, in long double
    std::vector<std::vector<LD>> M(N, std::vector<LD>(N));
    for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < N; ++j) M[i][j] = A[i][j];
    LD minpiv = 1e300L;
    for (std::size_t i = 0; i < N; ++i)
    {
        std::size_t p = i; for (std::size_t k = i; k < N; ++k) if (std::fabs(M[k][i]) > std::fabs(M[p][i])) p = k;
        minpiv = std::min(minpiv, std::fabs(M[p][i]));
        if (M[p][i] == 0) break;
        std::swap(M[i], M[p]);
        for (std::size_t k = i + 1; k < N; ++k) { const LD f = M[k][i] / M[i][i]; for (std::size_t j = i; j < N; ++j) M[k][j] -= f * M[i][j]; }
    }
    const auto A0 = A; const auto b0 = b;
    const auto x = own ? TinyDIP::solve_linear_system<N, T>(A, b, thr) : TinyDIP::solve_linear_system<N, T>(A, b);
    require(A == A0 && b == b0, "linalg/input-modified", "an argument changed");
    bool zero = true; for (auto v : x) zero = zero && v == 0;
    const bool single = std::is_same_v<T, float>;
    if (dup && minpiv < 1e-15L && !single) { require(zero, "linalg/solve-singular", "a singular system gave a non-zero answer"); event("singular_systems"); return; }
    if (minpiv < (LD)thr * 0.9L) { if (minpiv > 1e-6L) { require(zero, "linalg/solve-threshold", "pivot ", (double)minpiv, " is below the threshold ", (double)thr, " but the system was solved"); event("below_threshold"); } else c.trivial = true; return; }
    if (minpiv < (LD)thr * 1.1L || minpiv < (single ? 1e-2L : 1e-6L)) { c.trivial = true; return; }
    LD xm = 0, am = 0, bm = 0;
    for (auto v : x) xm = std::max(xm, std::fabs((LD)v));
    for (std::size_t i = 0; i < N; ++i) { bm = std::max(bm, std::fabs((LD)b[i])); for (auto v : A[i]) am = std::max(am, std::fabs((LD)v)); }
    for (std::size_t i = 0; i < N; ++i)
    {
        LD s = 0; for (std::size_t j = 0; j < N; ++j) s += (LD)A[i][j] * x[j];
        require(std::fabs(s - b[i]) <= (single ? 1e-3L : 1e-11L) * (am * xm * N + bm), "linalg/solve", "row ", i, ": A x = ", (double)s, " but b = ", (double)b[i]);
    }
    event("systems_solved");
}
VP_SECTION("solve", 4000, 60000)
{
    switch (r.range(0, 6))
    {
    case 0: solve<1, double>(r, c); break;
    case 1: solve<2, double>(r, c); break;
    case 2: solve<3, double>(r, c); break;
    case 3: solve<4, double>(r, c); break;
    case 4: solve<6, double>(r, c); break;
    case 5: solve<8, double>(r, c); break;
    default: solve<3, float>(r, c); break;
    }
}

template<class T> void symmetry(Rng& r, Case& c, const char* tn)
{
    const std::size_t top = r.chance(0.04) ? 90 : 12, n = r.size(1, top), m = r.chance(0.85) ? n : r.size(1, top);
    la::Matrix<T> a(n, m);
    for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < m; ++j) a.at(i, j) = (j < n && i < m && j < i) ? a.at(j, i) : rnd_scalar<T>(r);
    bool want = n == m;
    std::size_t bi = 0, bj = 0;
    if (n == m && n > 1 && r.chance(0.5))
    {
        bi = r.size(0, n - 1); do bj = r.size(0, n - 1); while (bj == bi);
        a.at(bi, bj) = a.at(bj, bi) + (T)1;
        want = false;
    }
    c.describe(tn, " ", n, "x", m, " ", want, " ", bi, ",", bj);
    require(la::is_symmetry(a) == want, "linalg/symmetry", "is_symmetry says ", !want);
    with_policy((int)r.range(0, 3), [&](auto&& p) { require(la::is_symmetry(p, a) == want, "linalg/symmetry-policy", "is_symmetry(policy) says ", !want); });
    const Sz s{ m, n };
    Image<T> im(s);
    for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < m; ++j) im.at(j, i) = a.at(i, j);
    require(TinyDIP::is_symmetry(im) == want, "linalg/symmetry-image", "is_symmetry(image) says ", !want);
    event(want ? "symmetric" : "asymmetric");
}
VP_SECTION("symmetry_double", 800, 10000) { symmetry<double>(r, c, "double"); }
VP_SECTION("symmetry_int", 500, 8000) { symmetry<int>(r, c, "int"); }
VP_SECTION("symmetry_u8", 300, 5000) { symmetry<std::uint8_t>(r, c, "u8"); }

VP_SECTION("gaussian_fit", 150, 2500)
{
    const Sz s{ r.size(12, 30), r.size(12, 30) };
    const TinyDIP::GaussianParameters2D<double> p{ r.real(20, 250), r.real(0.3, 0.7) * (double)s[0], r.real(0.3, 0.7) * (double)s[1], r.real(1.2, (double)s[0] / 6), r.real(1.2, (double)s[1] / 6), r.chance(0.3) ? 0 : r.real(-0.7, 0.7) };
    c.describe(shows(s), " ", p);
    Image<double> im(s);
    for (std::size_t y = 0; y < s[1]; ++y) for (std::size_t x = 0; x < s[0]; ++x)
    {
        const double dx = ((double)x - p.x0) / p.sigma_x, dy = ((double)y - p.y0) / p.sigma_y;
        im.at(x, y) = p.amplitude * std::exp(-(dx * dx - 2 * p.rho * dx * dy + dy * dy) / (2 * (1 - p.rho * p.rho)));
    }
    Pure<double> pure(im, "fit");
    with_policy((int)r.range(0, 3), [&](auto&& pol) {
        const auto q = TinyDIP::estimate_gaussian_parameters_2d(pol, im);
        auto chk = [&](double got, double want, double tol, const char* what) { require(std::fabs(got - want) <= tol, "linalg/gaussian-fit", what, " ", got, " instead of ", want); };
        chk(q.amplitude, p.amplitude, 0.01 * p.amplitude, "amplitude");
        chk(q.x0, p.x0, 0.02, "x0"); chk(q.y0, p.y0, 0.02, "y0");
        chk(q.sigma_x, p.sigma_x, 0.02 * p.sigma_x, "sigma_x"); chk(q.sigma_y, p.sigma_y, 0.02 * p.sigma_y, "sigma_y");
        chk(q.rho, p.rho, 0.02, "rho");
    });
    pure.check();
    event("fits");
}

