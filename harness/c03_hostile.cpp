// C03: readers facing arbitrary bytes: an image or an exception, nothing else.
#include "iofmt.hpp"
#include <new>
extern "C" std::size_t __sanitizer_get_current_allocated_bytes();
using namespace vp;

// A reader must never start another program.
static std::atomic<int> g_system_calls{ 0 };
extern "C" int system(const char*) { ++g_system_calls; return -1; }
// Allocation beyond 1.5 GB fails the way a real allocator fails (ASan would otherwise end the process).
void* operator new(std::size_t n) { if (n > (std::size_t(3) << 29)) throw std::bad_alloc(); if (void* p = std::malloc(n ? n : 1)) return p; throw std::bad_alloc(); }
void* operator new[](std::size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { std::free(p); }

namespace
{
    const std::vector<std::uint32_t> odd32 = { 0, 1, 2, 3, 4, 7, 8, 54, 255, 256, 65535, 65536, 0x7fffffff, 0x80000000u, 0x80000001u, 0xffffffffu, 0xfffffffeu, 0xfffffffdu,
        0x55555555u, 0x55555556u, 0xaaaaaaabu, 0x2aaaaaabu, 0x10000001u, 0x3fffffffu, 0x40000000u, 0xfffffff0u };
    template<class T> void consistent(const Image<T>& im)
    {
        std::size_t n = im.getDimensionality() ? 1 : 0;
        bool zero = false;
        for (std::size_t i = 0; i < im.getDimensionality(); ++i) zero = zero || im.getSize(i) == 0;
        if (zero) n = 0;
        for (std::size_t i = 0; i < im.getDimensionality() && !zero; ++i)
        {
            const std::size_t s = im.getSize(i);
            require(s == 0 || n <= (std::size_t(1) << 40) / s, "hostile/shape", "returned image claims an absurd shape");
            n *= s;
        }
        require(im.getImageData().size() == n, "hostile/shape", "returned image has ", im.getImageData().size(), " elements for its shape of ", n);
        volatile unsigned char sink = 0;
        const auto* b = reinterpret_cast<const unsigned char*>(im.getImageData().data());
        for (std::size_t i = 0; i < im.getImageData().size() * sizeof(T); i += 97) sink = sink ^ b[i];
        event(n ? "images_returned" : "empty_images_returned");
    }
    // Runs one reader under all monitors.
    template<class F> void observe(F&& f, bool leak_check = true)
    {
        const int fd0 = open_fd_count(), sys0 = g_system_calls;
        auto once = [&] { try { f(); } catch (const Violation&) { throw; } catch (const std::exception&) { event("exceptions"); } };
        once();
        if (leak_check)
        {
            const auto a0 = __sanitizer_get_current_allocated_bytes();
            for (int i = 0; i < 3; ++i) once();
            const auto a1 = __sanitizer_get_current_allocated_bytes();
            if (a1 >= a0 + 3 * 16)
            {
                // worker threads starting late may build up caches during a few reads, but not during all of forty more
                int grew = 0;
                for (int i = 0; i < 40; ++i) { const auto b0 = __sanitizer_get_current_allocated_bytes(); once(); grew += __sanitizer_get_current_allocated_bytes() > b0; }
                require(grew < 36, "hostile/memory-leak", "three identical reads left ", (long long)(a1 - a0), " more bytes allocated, ", grew, " of forty more reads some more");
                event("reads_repeated");
            }
        }
        require(open_fd_count() == fd0, "hostile/fd-leak", "open descriptors went from ", fd0, " to ", open_fd_count());
        require(g_system_calls == sys0, "hostile/spawn", "the reader started a shell command");
        event("reads_observed");
    }
    void mutate(Rng& r, Bytes& b, std::size_t header)
    {
        const int n = (int)r.range(0, 3);
        for (int k = 0; k < n && !b.empty(); ++k)
        {
            switch (r.range(0, 5))
            {
            case 0: b[r.size(0, std::min(b.size(), header) - 1)] ^= (unsigned char)(1u << r.range(0, 7)); break;
            case 1: b[r.size(0, b.size() - 1)] = (unsigned char)r.range(0, 255); break;
            case 2: b.resize(r.size(0, b.size())); break;
            case 3: b.resize(std::min(b.size(), r.size(0, header + 4))); break;
            case 4: for (std::size_t i = r.size(0, 8); i > 0; --i) b.push_back((unsigned char)r.range(0, 255)); break;
            default: if (b.size() > 8) b.erase(b.begin() + (long)r.size(0, b.size() - 5), b.begin() + (long)(b.size() - 4)); break;
            }
        }
    }
    void field32(Bytes& b, std::size_t o, std::uint32_t v) { for (int i = 0; i < 4; ++i) if (o + i < b.size()) b[o + i] = (v >> (8 * i)) & 255; }
    // Sizes in the range that is merely big (tens of MB to 2 GB) are a resource question, not a robustness one.
    bool merely_big(const Bytes& b, std::size_t bytes_per_pixel)
    {
        if (b.size() < 26) return false;
        const double w = (double)(std::int32_t)get32(b, 18), h = std::fabs((double)(std::int32_t)get32(b, 22));
        const double n = std::fabs(w) * h * (double)bytes_per_pixel;
        return n > 24e6 && n < 40e9;
    }
    std::string preview(const Bytes& b)
    {
        std::string o;
        char t[4];
        for (std::size_t i = 0; i < std::min<std::size_t>(b.size(), 58); ++i) { std::snprintf(t, sizeof t, "%02x", b[i]); o += t; }
        return o;
    }
}
VP_SECTION("bmp", 12000, 200000)
{
    Bytes b;
    const Sz s = { r.size(1, 12), r.size(1, 12) };
    if (r.chance(0.6)) b = bmp24(snap(rnd_image<RGB>(r, s)), r.chance(0.3), r.chance(0.2) ? r.size(1, 30) : 0);
    else
    {
        std::vector<RGB> pal(r.chance(0.5) ? 256 : r.size(0, 255));
        for (auto& p : pal) p = rnd_value<RGB>(r);
        b = bmp8(snap(rnd_image<std::uint8_t>(r, s)), pal, r.chance(0.3));
    }
    for (int k = (int)r.range(0, 2); k > 0; --k)
        field32(b, r.pick(std::vector<std::size_t>{ 2, 10, 14, 18, 18, 22, 22, 28, 46 }), r.chance(0.7) ? r.pick(odd32) : (r.chance(0.5) ? (std::uint32_t)r.next() : (std::uint32_t)r.range(-2000, 2000)));
    if (r.chance(0.05)) { b.resize(r.size(0, 80)); for (auto& x : b) x = (unsigned char)r.next(); }
    mutate(r, b, 54);
    c.describe("len=", b.size(), " ", preview(b));
    if (merely_big(b, 3)) { c.trivial = true; event("skipped_merely_big"); return; }
    const std::string path = tmpdir() + "/h.bmp";
    spit(path, b);
    observe([&] { consistent(TinyDIP::bmp_read(path.c_str(), true)); });
    observe([&] { TinyDIP::bmp_read_x_size(path.c_str(), true); TinyDIP::bmp_read_y_size(path.c_str(), true); }, false);
}
VP_SECTION("bmp_every_truncation", 60, 600)
{
    const Sz s = { r.size(1, 7), r.size(1, 5) };
    const bool pal8 = r.chance(0.5);
    std::vector<RGB> pal(16);
    const Bytes b = pal8 ? bmp8(snap(Image<std::uint8_t>(s)), pal, r.chance(0.5)) : bmp24(snap(rnd_image<RGB>(r, s)), r.chance(0.5), 0);
    const std::string path = tmpdir() + "/t.bmp";
    c.describe(shows(s), pal8 ? " 8-bit" : " 24-bit", " all ", b.size(), " prefixes");
    for (std::size_t n = 0; n < b.size(); ++n)
    {
        c.desc = cat(shows(s), pal8 ? " 8-bit" : " 24-bit", " prefix ", n, "/", b.size());
        c.crumb();
        spit(path, Bytes(b.begin(), b.begin() + (long)n));
        observe([&] { consistent(TinyDIP::bmp_read(path.c_str(), true)); }, false);
        event("truncations");
    }
}
VP_SECTION("dbmp_hsv", 8000, 120000)
{
    const bool hsv = r.chance(0.5);
    const Sz s = { r.size(1, 12), r.size(1, 8) };
    Bytes b = raw_doubles(s[0], s[1], hsv ? 3 : 1, [&](auto, auto, auto) { return any_double(r); }, [&] { return any_double(r); });
    for (int k = (int)r.range(0, 2); k > 0; --k) field32(b, r.chance(0.5) ? 18 : 22, r.chance(0.7) ? r.pick(odd32) : (std::uint32_t)r.range(-2000, 2000));
    mutate(r, b, 54);
    c.describe(hsv ? "hsv" : "dbmp", " len=", b.size(), " ", preview(b));
    if (merely_big(b, hsv ? 24 : 8)) { c.trivial = true; event("skipped_merely_big"); return; }
    const std::string path = tmpdir() + "/h.raw";
    spit(path, b);
    if (hsv) observe([&] { consistent(TinyDIP::hsv_read(path.c_str(), true)); });
    else observe([&] { consistent(TinyDIP::double_image::read(path.c_str(), true)); });
    // pixels missing from a truncated file must not be leftovers of freed memory: two reads agree
    if (!hsv) { try { expect_same(TinyDIP::double_image::read(path.c_str(), true), TinyDIP::double_image::read(path.c_str(), true), "hostile/nondeterministic"); } catch (const Violation&) { throw; } catch (const std::exception&) {} }
}
VP_SECTION("csv", 6000, 90000)
{
    static const std::vector<std::string> cells = { "1", "-2.5", "1e3", "", " ", "abc", "1e999", "nan", "inf", "-", "+", "0x10", "1.2.3", "99999999999999999999999", "\"q\"", "1e-400", "--1", "\t4" };
    std::string t;
    const int rows = (int)r.range(0, 6);
    for (int y = 0; y < rows; ++y)
    {
        const int cols = (int)r.range(0, 6);
        for (int x = 0; x < cols; ++x) t += (x ? "," : "") + r.pick(cells);
        t += r.chance(0.1) ? "\r\n" : "\n";
    }
    if (r.chance(0.2)) for (int k = 0; k < 6 && !t.empty(); ++k) t[r.size(0, t.size() - 1)] = (char)r.range(0, 255);
    if (r.chance(0.1)) t.resize(r.size(0, t.size()));
    const int which = (int)r.range(0, 4);
    c.describe("variant=", which, " ", jesc(t));
    const std::string path = tmpdir() + "/h.csv";
    spit(path, t);
    observe([&] {
        switch (which)
        {
        case 0: consistent(TinyDIP::double_image::read_from_csv<double>(path.c_str())); break;
        case 1: consistent(TinyDIP::double_image::read_from_csv(std::execution::par, path.c_str())); break;
        case 2: consistent(TinyDIP::double_image::read_from_csv(std::execution::seq, path.c_str())); break;
        case 3: consistent(TinyDIP::double_image::read_from_csv<int>(path.c_str())); break;
        default: consistent(TinyDIP::double_image::read_from_csv<float>(path.c_str())); break;
        }
    }, false);
}
VP_SECTION("pnm", 6000, 90000)
{
    static const std::vector<std::string> toks = { "0", "1", "2", "3", "255", "65535", "65536", "-1", "18446744073709551615", "18446744073709551616", "4294967296", "9223372036854775808",
        "6148914691236517206", "2147483647", "2147483648", "-2147483648", "abc", "#c", "1x", "", "P3", "1e3", "+7" };
    std::string t = r.pick(std::vector<std::string>{ "P1", "P2", "P3", "P3", "P2", "P6", "P4", "", "Q" }) + "\n";
    if (r.chance(0.2)) t += "# comment line 12 34\n";
    auto dim = [&] { return r.chance(0.7) ? std::to_string(r.range(0, 6)) : r.pick(toks); };
    t += dim() + " " + dim() + "\n";
    t += (r.chance(0.7) ? std::string("255") : r.pick(toks)) + "\n";
    for (int k = (int)r.range(0, 120); k > 0; --k) t += (r.chance(0.97) ? std::to_string(r.range(0, 255)) : r.pick(toks)) + (r.chance(0.2) ? "\n" : " ");
    if (r.chance(0.1) && t.size() > 4) t[r.size(0, t.size() - 1)] = (char)r.range(0, 255);
    const int which = (int)r.range(0, 2);
    c.describe("variant=", which, " ", jesc(t.substr(0, 160)));
    const std::string path = tmpdir() + "/h.pnm";
    spit(path, t);
    observe([&] {
        if (which == 0) consistent(TinyDIP::pnm::read(path));
        else if (which == 1) consistent(TinyDIP::pnm::read(std::execution::par, path));
        else consistent(TinyDIP::pnm::read(std::execution::seq, path));
    }, false);
}
VP_SECTION("unopenable", 30, 60)
{
    c.describe("missing/dir ", r.next() % 100000);
    const std::string path = r.chance(0.5) ? tmpdir() + "/nope" : tmpdir();
    observe([&] { consistent(TinyDIP::bmp_read(path.c_str(), r.chance(0.5))); });
    observe([&] { consistent(TinyDIP::double_image::read(path.c_str(), r.chance(0.5))); });
    observe([&] { consistent(TinyDIP::hsv_read(path.c_str(), r.chance(0.5))); });
    observe([&] { consistent(TinyDIP::double_image::read_from_csv<double>(path.c_str())); }, false);
    observe([&] { consistent(TinyDIP::pnm::read(path)); }, false);
}
