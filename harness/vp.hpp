// Runtime-monitoring harness core: seeded case generation, breadcrumbs that survive a crash,
// violation reporting, observation counters, evidence output.
#ifndef VP_HPP
#define VP_HPP
#include <algorithm>
#include <atomic>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
#include <dirent.h>

namespace vp
{
    inline std::uint64_t mix(std::uint64_t z)
    {
        z += 0x9e3779b97f4a7c15ULL;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
    inline std::uint64_t hash_str(const std::string& s, std::uint64_t h = 1469598103934665603ULL)
    {
        for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
        return mix(h);
    }

    struct Rng
    {
        std::uint64_t s;
        explicit Rng(std::uint64_t seed) : s(seed) {}
        std::uint64_t next() { s += 0x9e3779b97f4a7c15ULL; return mix(s); }
        // inclusive range
        long long range(long long lo, long long hi)
        {
            return lo + static_cast<long long>(next() % static_cast<std::uint64_t>(hi - lo + 1));
        }
        std::size_t size(std::size_t lo, std::size_t hi) { return static_cast<std::size_t>(range((long long)lo, (long long)hi)); }
        double unit() { return static_cast<double>(next() >> 11) * (1.0 / 9007199254740992.0); }
        double real(double lo, double hi) { return lo + (hi - lo) * unit(); }
        bool chance(double p) { return unit() < p; }
        template<class T> const T& pick(const std::vector<T>& v) { return v[next() % v.size()]; }
    };

    struct Violation : std::runtime_error
    {
        std::string key;
        Violation(std::string k, const std::string& m) : std::runtime_error(m), key(std::move(k)) {}
    };

    // Report a broken property. `key` identifies the kind of failure (matched against known findings).
    [[noreturn]] inline void fail(const std::string& key, const std::string& msg) { throw Violation(key, msg); }

    template<class... A>
    std::string cat(const A&... a)
    {
        std::ostringstream os;
        os.precision(17);
        (os << ... << a);
        return os.str();
    }
    template<class... A>
    void require(bool ok, const std::string& key, const A&... a)
    {
        if (!ok) fail(key, cat(a...));
    }

    // Observation counters: what the monitors actually saw.
    inline std::map<std::string, std::uint64_t>& events() { static std::map<std::string, std::uint64_t> m; return m; }
    inline void event(const std::string& name, std::uint64_t n = 1) { events()[name] += n; }

    struct Case
    {
        std::string desc;
        bool trivial = false;
        template<class... A> void describe(const A&... a) { desc += cat(a...); crumb(); }
        void crumb() const;
    };

    struct Section
    {
        std::string name;
        std::uint64_t quick, thorough;
        std::function<void(Rng&, Case&)> fn;
    };
    inline std::vector<Section>& sections() { static std::vector<Section> v; return v; }
    struct Reg
    {
        Reg(std::string n, std::uint64_t q, std::uint64_t t, std::function<void(Rng&, Case&)> f)
        {
            sections().push_back({ std::move(n), q, t, std::move(f) });
        }
    };
#define VP_CAT2(a, b) a##b
#define VP_CAT(a, b) VP_CAT2(a, b)
#define VP_SECTION(name, quick, thorough) \
    static void VP_CAT(vp_sec_, __LINE__)(vp::Rng&, vp::Case&); \
    static vp::Reg VP_CAT(vp_reg_, __LINE__)(name, quick, thorough, VP_CAT(vp_sec_, __LINE__)); \
    static void VP_CAT(vp_sec_, __LINE__)([[maybe_unused]] vp::Rng& r, [[maybe_unused]] vp::Case& c)

    inline char*& crumb_mem() { static char* p = nullptr; return p; }
    inline std::string& crumb_head() { static std::string s; return s; }
    constexpr std::size_t CRUMB = 4096;
    inline void set_crumb(const std::string& s)
    {
        if (!crumb_mem()) return;
        const std::size_t n = std::min(s.size(), CRUMB - 1);
        std::memcpy(crumb_mem(), s.data(), n);
        crumb_mem()[n] = 0;
    }
    inline void Case::crumb() const { set_crumb(crumb_head() + desc); }

    inline std::string jesc(const std::string& s)
    {
        std::string o;
        for (unsigned char ch : s)
        {
            if (ch == '"' || ch == '\\') { o += '\\'; o += (char)ch; }
            else if (ch < 0x20 || ch >= 0x7f) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
            else o += (char)ch;
        }
        return o;
    }

    inline int open_fd_count()
    {
        int n = 0;
        if (DIR* d = opendir("/proc/self/fd"))
        {
            while (readdir(d)) ++n;
            closedir(d);
        }
        return n;
    }

    // ---- shape / value helpers -------------------------------------------------------------
    inline bool close(double a, double b, double rel = 1e-9, double abs_ = 1e-9)
    {
        if (a == b) return true;
        if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
        if (std::isinf(a) || std::isinf(b)) return false;
        return std::fabs(a - b) <= abs_ + rel * std::max(std::fabs(a), std::fabs(b));
    }

    // Run f; true iff it threw something derived from std::exception.
    template<class F>
    bool throws(F&& f)
    {
        try { f(); }
        catch (const Violation&) { throw; }
        catch (const std::exception&) { return true; }
        return false;
    }

    inline std::string tmpdir()
    {
        const char* t = std::getenv("VP_SCRATCH");
        return t ? t : "/tmp";
    }

    inline int run_main(int argc, char** argv)
    {
        auto env = [](const char* n, const char* d) { const char* v = std::getenv(n); return std::string(v && *v ? v : d); };
        const std::uint64_t seed = std::stoull(env("VERIF_SEED", "1"));
        const bool thorough = env("VERIF_TIER", "quick") == "thorough";
        const std::uint64_t shard = std::stoull(env("VP_SHARD", "0"));
        const std::uint64_t shards = std::stoull(env("VP_SHARDS", "1"));
        const double budget = std::stod(env("VP_BUDGET", "240"));
        const std::string out = env("VP_OUT", "");
        const std::string only_sec = env("VP_SECTION", "");
        const long long only_case = std::stoll(env("VP_CASE", "-1"));
        const double hang = std::stod(env("VP_HANG", "120"));
        const double scale = std::stod(env("VP_SCALE", "1"));
        std::set<std::string> known;
        {
            std::stringstream ss(env("VP_KNOWN", ""));
            std::string k;
            while (std::getline(ss, k, ',')) if (!k.empty()) known.insert(k);
        }
        (void)argc; (void)argv;
        const std::string crumbfile = env("VP_CRUMB", "");
        if (!crumbfile.empty())
        {
            int fd = ::open(crumbfile.c_str(), O_RDWR | O_CREAT, 0644);
            if (fd >= 0 && ::ftruncate(fd, CRUMB) == 0)
            {
                void* p = ::mmap(nullptr, CRUMB, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
                if (p != MAP_FAILED) crumb_mem() = static_cast<char*>(p);
            }
            if (fd >= 0) ::close(fd);
        }
        using clock = std::chrono::steady_clock;
        const auto t0 = clock::now();
        auto elapsed = [&] { return std::chrono::duration<double>(clock::now() - t0).count(); };

        static std::atomic<std::uint64_t> progress{ 0 };
        static std::atomic<bool> done{ false };
        std::thread watchdog([hang] {
            std::uint64_t last = ~0ULL;
            auto since = clock::now();
            while (!done.load())
            {
                std::this_thread::sleep_for(std::chrono::milliseconds(50));
                const std::uint64_t p = progress.load();
                if (p != last) { last = p; since = clock::now(); }
                else if (std::chrono::duration<double>(clock::now() - since).count() > hang)
                {
                    std::fprintf(stderr, "VP-HANG: one case made no progress for %.0f s: %s\n", hang, crumb_mem() ? crumb_mem() : "");
                    std::fflush(stderr);
                    ::_exit(78);
                }
            }
        });

        struct Stat { std::uint64_t evals = 0, trivial = 0; std::unordered_set<std::uint64_t> distinct; std::vector<std::string> samples; std::uint64_t quota = 0, next = 0; };
        std::vector<Stat> st(sections().size());
        std::map<std::string, std::string> known_hit;
        std::string viol_key, viol_msg, viol_sec; long long viol_case = -1; std::string viol_desc;
        bool violated = false;
        std::uint64_t total_left = 0;
        for (std::size_t s = 0; s < sections().size(); ++s)
        {
            auto& sec = sections()[s];
            if (!only_sec.empty() && sec.name != only_sec) continue;
            st[s].quota = only_case >= 0 ? 1 : (thorough ? sec.thorough : (std::uint64_t)((double)sec.quick * scale));
            total_left += st[s].quota;
        }
        bool out_of_time = false;
        // Round-robin over sections (proportional) so that a time budget never starves one of them.
        const std::uint64_t rounds = 64;
        for (std::uint64_t rd = 0; rd < rounds && !violated && !out_of_time; ++rd)
        {
            for (std::size_t s = 0; s < sections().size() && !violated && !out_of_time; ++s)
            {
                auto& sec = sections()[s];
                auto& S = st[s];
                const std::uint64_t upto = S.quota * (rd + 1) / rounds;
                for (; S.next < upto && !violated; ++S.next)
                {
                    const std::uint64_t i = only_case >= 0 ? (std::uint64_t)only_case : S.next;
                    if (only_case < 0 && i % shards != shard) continue;
                    if (elapsed() > budget) { out_of_time = true; break; }
                    Rng r(mix(seed * 0x9E3779B97F4A7C15ULL + hash_str(sec.name)) ^ mix(i + 0x1234567));
                    Case c;
                    crumb_head() = cat("section=", sec.name, " case=", i, " seed=", seed, " :: ");
                    set_crumb(crumb_head());
                    progress.fetch_add(1);
                    try
                    {
                        sec.fn(r, c);
                    }
                    catch (const Violation& v)
                    {
                        if (known.count(v.key)) { if (!known_hit.count(v.key)) known_hit[v.key] = cat(v.what(), " [", c.desc, "]"); }
                        else { violated = true; viol_key = v.key; viol_msg = v.what(); }
                    }
                    catch (const std::exception& e)
                    {
                        const std::string key = "unexpected-exception:" + sec.name;
                        if (known.count(key)) { if (!known_hit.count(key)) known_hit[key] = e.what(); }
                        else { violated = true; viol_key = key; viol_msg = cat("unexpected exception on a valid input: ", e.what()); }
                    }
                    catch (...)
                    {
                        violated = true; viol_key = "unexpected-exception:" + sec.name; viol_msg = "unexpected non-standard exception on a valid input";
                    }
                    if (violated) { viol_sec = sec.name; viol_case = (long long)i; viol_desc = c.desc; }
                    S.evals++;
                    if (c.trivial) S.trivial++;
                    else S.distinct.insert(hash_str(c.desc));
                    if (S.samples.size() < 2 && !c.trivial && !c.desc.empty()) S.samples.push_back(c.desc.substr(0, 400));
                }
            }
        }
        done = true;
        watchdog.join();
        if (!out.empty())
        {
            std::FILE* f = std::fopen(out.c_str(), "w");
            if (f)
            {
                std::fprintf(f, "{\n \"elapsed\": %.3f, \"out_of_time\": %s,\n \"sections\": {", elapsed(), out_of_time ? "true" : "false");
                bool first = true;
                for (std::size_t s = 0; s < sections().size(); ++s)
                {
                    if (st[s].quota == 0) continue;
                    std::fprintf(f, "%s\n  \"%s\": {\"evaluations\": %llu, \"trivial\": %llu, \"distinct\": [", first ? "" : ",", jesc(sections()[s].name).c_str(),
                        (unsigned long long)st[s].evals, (unsigned long long)st[s].trivial);
                    bool f2 = true;
                    for (auto h : st[s].distinct) { std::fprintf(f, "%s%llu", f2 ? "" : ",", (unsigned long long)h); f2 = false; }
                    std::fprintf(f, "], \"samples\": [");
                    for (std::size_t k = 0; k < st[s].samples.size(); ++k) std::fprintf(f, "%s\"%s\"", k ? ", " : "", jesc(st[s].samples[k]).c_str());
                    std::fprintf(f, "]}");
                    first = false;
                }
                std::fprintf(f, "\n },\n \"events\": {");
                first = true;
                for (auto& [k, v] : events()) { std::fprintf(f, "%s\n  \"%s\": %llu", first ? "" : ",", jesc(k).c_str(), (unsigned long long)v); first = false; }
                std::fprintf(f, "\n },\n \"known\": {");
                first = true;
                for (auto& [k, v] : known_hit) { std::fprintf(f, "%s\n  \"%s\": \"%s\"", first ? "" : ",", jesc(k).c_str(), jesc(v).c_str()); first = false; }
                std::fprintf(f, "\n },\n \"violation\": ");
                if (violated)
                    std::fprintf(f, "{\"key\": \"%s\", \"section\": \"%s\", \"case\": %lld, \"desc\": \"%s\", \"message\": \"%s\"}",
                        jesc(viol_key).c_str(), jesc(viol_sec).c_str(), viol_case, jesc(viol_desc).c_str(), jesc(viol_msg).c_str());
                else std::fprintf(f, "null");
                std::fprintf(f, "\n}\n");
                std::fclose(f);
            }
        }
        if (violated)
        {
            std::fprintf(stderr, "VP-VIOLATION key=%s section=%s case=%lld desc={%s}: %s\n", viol_key.c_str(), viol_sec.c_str(), viol_case, viol_desc.c_str(), viol_msg.c_str());
            return 1;
        }
        return 0;
    }
}

#ifndef VP_NO_MAIN
int main(int argc, char** argv) { return vp::run_main(argc, argv); }
#endif
#endif
