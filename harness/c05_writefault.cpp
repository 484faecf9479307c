// C05: a writer that reports success has stored the complete file; otherwise it reports failure. Fault injection on the file system.
#include "iofmt.hpp"
#include <csignal>
#include <sys/resource.h>
#include <sys/stat.h>
extern "C" std::size_t __sanitizer_get_current_allocated_bytes();
using namespace vp;
namespace
{
    struct Limit
    {
        rlimit old{};
        explicit Limit(std::size_t n)
        {
            std::signal(SIGXFSZ, SIG_IGN);
            getrlimit(RLIMIT_FSIZE, &old);
            rlimit l = old; l.rlim_cur = n;
            setrlimit(RLIMIT_FSIZE, &l);
        }
        ~Limit() { setrlimit(RLIMIT_FSIZE, &old); }
    };
    // Returns true when the writer claims success.
    bool write_with(int kind, const std::string& base, const Image<RGB>& rgb, const Image<double>& d, const Image<HSV>& h)
    {
        switch (kind)
        {
        case 0: return TinyDIP::bmp_write(base.c_str(), rgb) == 0;
        case 1: return TinyDIP::double_image::write(base.c_str(), d) == 0;
        case 2: return TinyDIP::hsv_write(base.c_str(), h) == 0;
        default:
            try
            {
                if (kind == 3) TinyDIP::double_image::write_to_csv((base + ".csv").c_str(), d, 6);
                else if (kind == 4) TinyDIP::double_image::write_to_csv(std::execution::par, base + ".csv", d, 6);
                else TinyDIP::pnm::write(rgb, base + ".pnm", kind == 5 ? "P3" : "P2");
                return true;
            }
            catch (const std::exception&) { return false; }
        }
    }
    const char* ext(int kind) { static const char* e[] = { ".bmp", ".dbmp", ".hsv", ".csv", ".csv", ".pnm", ".pnm" }; return e[kind]; }
    // Identical calls, one after another: none may keep memory or descriptors. (A runtime that builds up a cache grows
    // for some of the calls, a leak for each of them.)
    template<class F> void releases(int kind, const char* when, F&& f)
    {
        f();
        const int fd0 = open_fd_count();
        auto growing = [&](int calls)
        {
            int grew = 0;
            std::size_t last = __sanitizer_get_current_allocated_bytes();
            for (int i = 0; i < calls; ++i)
            {
                f();
                const std::size_t now = __sanitizer_get_current_allocated_bytes();
                grew += now > last;
                last = now;
            }
            return grew;
        };
        // worker threads starting late may build up caches during a few calls, but not during forty more
        const bool leak = growing(4) == 4 && growing(40) >= 36;
        require(open_fd_count() == fd0, "fault/fd-leak", "writer ", ext(kind), " left descriptors open ", when, ": ", fd0, " before, ", open_fd_count(), " after");
        require(!leak, "fault/memory-leak", "writer ", ext(kind), " keeps memory with every call ", when);
        event("release_checks");
    }
    void run(Rng& r, Case& c, int kind, Sz s, int points)
    {
        const Image<RGB> rgb = rnd_image<RGB>(r, s);
        const Image<double> d = rnd_image<double>(r, s);
        const Image<HSV> h = rnd_image<HSV>(r, s);
        const std::string base = tmpdir() + "/q";
        c.describe("kind=", kind, " ", shows(s));
        require(write_with(kind, base, rgb, d, h), "fault/healthy", "writer ", ext(kind), " failed without a fault");
        const Bytes full = slurp(base + ext(kind));
        releases(kind, "when it succeeds", [&] { (void)write_with(kind, base, rgb, d, h); });
        { const std::size_t cut = r.size(0, full.size() - 1); ::unlink((base + ext(kind)).c_str()); releases(kind, "when the device is full", [&] { Limit l(cut); (void)write_with(kind, base, rgb, d, h); }); }
        { const std::string nowhere = tmpdir() + "/no/such/q"; releases(kind, "when the directory is missing", [&] { require(!write_with(kind, nowhere, rgb, d, h), "fault/silent", "writer ", ext(kind), " reported success in a missing directory"); }); }
        std::vector<std::size_t> cuts;
        if (full.size() <= (std::size_t)points) for (std::size_t i = 0; i < full.size(); ++i) cuts.push_back(i);
        else { cuts = { 0, 1, 53, 54, 55, full.size() - 1, full.size() / 2 }; for (int i = 7; i < points; ++i) cuts.push_back(r.size(0, full.size() - 1)); }
        for (std::size_t cut : cuts)
        {
            if (cut >= full.size()) continue;
            ::unlink((base + ext(kind)).c_str());
            bool ok;
            { Limit l(cut); ok = write_with(kind, base, rgb, d, h); }
            if (ok)
            {
                const Bytes got = slurp(base + ext(kind));
                require(got == full, "fault/silent", "writer ", ext(kind), " reported success but only ", got.size(), " of ", full.size(), " bytes reached the file (device full after ", cut, ")");
            }
            else event("failures_reported");
            event("fault_points");
        }
        // after the fault is gone the same call succeeds
        require(write_with(kind, base, rgb, d, h) && slurp(base + ext(kind)) == full, "fault/recovery", "writer ", ext(kind), " does not recover");
        // full device
        const std::string base2 = tmpdir() + "/full";
        ::unlink((base2 + ext(kind)).c_str());
        struct stat st;
        if (::stat("/dev/full", &st) == 0 && S_ISCHR(st.st_mode) && ::symlink("/dev/full", (base2 + ext(kind)).c_str()) == 0)
        {
            const bool claimed = write_with(kind, base2, rgb, d, h);
            ::unlink((base2 + ext(kind)).c_str());
            require(!claimed, "fault/silent", "writer ", ext(kind), " reported success on a full device");
            event("full_device");
        }
    }
}
VP_SECTION("every_byte", 70, 700) { run(r, c, (int)r.range(0, 6), Sz{ r.size(1, 6), r.size(1, 6) }, 4000); }
VP_SECTION("large", 42, 400) { run(r, c, (int)r.range(0, 6), Sz{ r.size(60, 130), r.size(60, 130) }, 40); }
