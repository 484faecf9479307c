#include <chrono>
#include <thread>
// C16: window filters, bilateral filter, patches.
#define VP_NO_MAIN
#include "c16_ref.hpp"
#include <mutex>
using namespace vp;

static Sz unravel(std::size_t i, const Sz& s) { Sz o; for (auto n : s) { o.push_back(i % n); i /= n; } return o; }
// the window of size w around p: constant/mirror/replicate in 2-D, zero outside otherwise
template<class T> std::vector<T> window_at(const Ref<T>& a, const Sz& p, const Sz& w, int mode, T v)
{
    std::vector<T> o;
    for (std::size_t k = 0; k < product(w); ++k)
    {
        const Sz q = unravel(k, w);
        if (a.size.size() == 2)
        {
            o.push_back(padded_at(a, (long long)p[0] - (long long)(w[0] / 2) + (long long)q[0], (long long)p[1] - (long long)(w[1] / 2) + (long long)q[1], mode, v));
            continue;
        }
        std::size_t at = 0, stride = 1; bool in = true;
        for (std::size_t d = 0; d < w.size(); ++d)
        {
            const long long z = (long long)p[d] - (long long)(w[d] / 2) + (long long)q[d];
            if (z < 0 || z >= (long long)a.size[d]) { in = false; break; }
            at += (std::size_t)z * stride; stride *= a.size[d];
        }
        o.push_back(in ? a.d[at] : T{});
    }
    return o;
}
template<class T> void windowed(Rng& r, Case& c, const char* tn, std::size_t dims)
{
    Sz s, w;
    const int mode = (int)r.range(0, 2);
    for (std::size_t d = 0; d < dims; ++d)
    {
        s.push_back(dims == 2 ? r.size(2, 9) : rnd_extent(r, dims == 1 ? 12 : 4));
        w.push_back(dims == 2 && mode == 1 ? r.size(1, s[d] - 1) : r.size(1, dims == 3 ? 3 : 5));
    }
    c.describe(tn, " ", shows(s), " window ", shows(w), " ", BCN[mode]);
    const auto im = rnd_image<T>(r, s);
    const T v = rnd_value<T>(r);
    Pure<T> pure(im, "windowed");
    const auto a = snap(im);
    // position-sensitive filter: a weighted sum with distinct weights per window cell
    auto fold = [](const std::vector<T>& q) { double acc = 0; for (std::size_t i = 0; i < q.size(); ++i) acc += (double)q[i] / (double)(i + 1); return acc; };
    Ref<double> wantd(s);
    Ref<T> want(s);
    for (std::size_t i = 0; i < a.d.size(); ++i) want.d[i] = (T)(fold(window_at(a, unravel(i, s), w, mode, v)) / 20);
    std::atomic<std::size_t> calls{ 0 }, bad{ 0 };
    auto filter = [&](const Image<T>& q) -> T
    {
        ++calls;
        const auto gz = q.getSize();
        if (Sz(gz.begin(), gz.end()) != w) ++bad;
        return (T)(fold(std::vector<T>(q.getImageData().begin(), q.getImageData().end())) / 20);
    };
    const double rel = std::is_integral_v<T> ? 0 : 1e-12;
    const bool slow = r.chance(0.15); // a callback that takes its time, so that calls at once overlap
    auto one = [&](auto&& policy, const std::string& key)
    {
        calls = 0; bad = 0;
        std::vector<double> progress; std::mutex m; int inside = 0, most = 0;
        const auto got = TinyDIP::windowed_filter(policy, im, w, filter, BC[mode], v, [&](double p) { { std::lock_guard g(m); most = std::max(most, ++inside); } if (slow) std::this_thread::sleep_for(std::chrono::microseconds(30)); std::lock_guard g(m); progress.push_back(p); --inside; });
        require(bad == 0, key + "/window", "the filter saw a window of another shape");
        require(calls == product(s), key + "/calls", "the filter ran ", calls.load(), " times for ", product(s), " pixels");
        require(most <= 1, key + "/progress", "the progress callback ran ", most, " times at once");
        require(!progress.empty(), key + "/progress", "no progress reported");
        for (std::size_t i = 0; i < progress.size(); ++i)
        {
            require(progress[i] > 0 && progress[i] <= 1, key + "/progress", "progress ", progress[i]);
            if (i) require(progress[i] > progress[i - 1], key + "/progress", "progress fell from ", progress[i - 1], " to ", progress[i]);
        }
        event("progress_reports", progress.size());
        expect(got, want, key, rel, rel);
        event("windows", product(s));
    };
    one(std::execution::seq, cat("windowed-", dims, "d"));
    one(std::execution::par, cat("windowed-", dims, "d-par"));
    event(cat("window_dims", dims));
    if (r.chance(0.2))
    {
        Sz bad_w = w; bad_w.push_back(1);
        require(throws([&] { TinyDIP::windowed_filter(std::execution::seq, im, bad_w, filter, BC[mode], v); }), "windowed/reject", "window of another dimensionality accepted");
        event("window_rejections");
    }
    pure.check();
}
VP_SECTION("window2", 300, 6000) { windowed<double>(r, c, "double", 2); }
VP_SECTION("window2_u8", 200, 4000) { windowed<std::uint8_t>(r, c, "u8", 2); }
VP_SECTION("window1", 100, 2000) { windowed<double>(r, c, "double", 1); }
VP_SECTION("window3", 100, 2000) { windowed<double>(r, c, "double", 3); }

template<class T> void bilateral(Rng& r, Case& c, const char* tn, bool exact)
{
    const int mode = (int)r.range(0, 2);
    const Sz s = { r.size(2, 8), r.size(2, 8) };
    const Sz w = { mode == 1 ? r.size(1, s[0] - 1) : r.size(1, 5), mode == 1 ? r.size(1, s[1] - 1) : r.size(1, 5) };
    const double sr = r.real(5, 200), ss = r.real(0.5, 4);
    c.describe(tn, " ", shows(s), " window ", shows(w), " ", BCN[mode], " kernels ", sr, ",", ss);
    const auto im = rnd_image<T>(r, s);
    const T v = rnd_value<T>(r);
    Pure<T> pure(im, "bilateral");
    const auto a = snap(im);
    auto rk = [sr](double d) { return std::exp(-d * d / (2 * sr * sr)); };
    auto sk = [ss](double d) { return std::exp(-d * d / (2 * ss * ss)); };
    auto ref = [&](T pad_value)
    {
        Ref<ld> o(s);
        for (std::size_t i = 0; i < a.d.size(); ++i)
        {
            const auto q = window_at(a, unravel(i, s), w, mode, pad_value);
            const T centre = q[(w[1] / 2) * w[0] + w[0] / 2];
            ld sum = 0, weights = 0;
            for (std::size_t k = 0; k < q.size(); ++k)
            {
                const ld dx = (ld)(k % w[0]) - (ld)(w[0] / 2), dy = (ld)(k / w[0]) - (ld)(w[1] / 2);
                const ld g = (ld)rk(std::fabs((double)q[k] - (double)centre)) * (ld)sk((double)std::sqrt(dx * dx + dy * dy));
                sum += g * (ld)q[k]; weights += g;
            }
            o.d[i] = sum / weights;
        }
        return o;
    };
    auto cmp = [&](const Image<T>& got, const Ref<ld>& want, const std::string& key)
    {
        require(got.getWidth() == s[0] && got.getHeight() == s[1], key, "shape ", got.getWidth(), "x", got.getHeight());
        for (std::size_t i = 0; i < want.d.size(); ++i)
        {
            const ld g = (ld)got.getImageData()[i];
            const bool ok = exact ? std::fabs((double)(g - want.d[i])) <= 1e-9 * 1000 : (g <= want.d[i] + 1e-6L && g > want.d[i] - 1 - 1e-6L);
            require(ok, key, "at (", index_of(i, s), ") got ", (double)g, " want ", (double)want.d[i], exact ? "" : " truncated");
        }
        event("bilateral_pixels", want.d.size());
    };
    cmp(TinyDIP::bilateral_filter(std::execution::seq, im, w, rk, sk, BC[mode], nullptr, v), ref(v), cat("bilateral-", BCN[mode]));
    cmp(TinyDIP::bilateral_filter(std::execution::par, im, w, rk, sk, BC[mode], nullptr, v), ref(v), cat("bilateral-", BCN[mode], "-par"));
    cmp(TinyDIP::bilateral_filter(im, w, rk, sk, BC[mode]), ref(T{}), cat("bilateral-", BCN[mode], "-plain"));
    pure.check();
}
VP_SECTION("bilateral", 250, 5000) { bilateral<double>(r, c, "double", true); }
VP_SECTION("bilateral_u8", 150, 3000) { bilateral<std::uint8_t>(r, c, "u8", false); }

VP_SECTION("patches", 400, 8000)
{
    const Sz s = rnd_size2(r, 10), w = { r.size(1, 4), r.size(1, 4) };
    c.describe("patches ", shows(s), " patch ", shows(w));
    const auto im = rnd_image<double>(r, s);
    Pure<double> pure(im, "patches");
    const auto a = snap(im);
    require(TinyDIP::get_center_pixel(im) == a(s[0] / 2, s[1] / 2), "centre-pixel", "centre of ", shows(s));
    const auto cl = TinyDIP::get_center_location(std::execution::seq, im);
    require(cl.size() == 2 && cl[0] == s[0] / 2 && cl[1] == s[1] / 2, "centre-location", "centre of ", shows(s));
    const Sz p = { r.size(0, s[0] - 1), r.size(0, s[1] - 1) }, q = { r.size(0, s[0] - 1), r.size(0, s[1] - 1) };
    const auto A = window_at(a, p, w, 0, 0.0), B = window_at(a, q, w, 0, 0.0);
    ld m = 0;
    for (std::size_t i = 0; i < A.size(); ++i) m += ((ld)A[i] - B[i]) * ((ld)A[i] - B[i]);
    m /= (ld)A.size();
    const double got = TinyDIP::DefaultPatchDistance<double>{}(im, p, q, w);
    require(close(got, (double)m, 1e-10, 1e-10), "patch-distance", "got ", got, " want ", (double)m);
    const double h = r.real(0.1, 30), d = r.real(0, 50);
    require(close(TinyDIP::DefaultWeightCalculation<double>(h)(d), std::exp(-d / (h * h)), 1e-12, 1e-300), "patch-weight", "h ", h, " d ", d);
    pure.check();
    event("patches");
}
