// C28: dynamic libraries are opened and closed exactly once and outlive everything that uses their code;
// loading plugins registers the commands of every good module and survives every bad one.
#include <dlfcn.h>
#include <map>
#include <set>
#include <vector>
#include <string>
#include <sys/stat.h>
// stand-ins that record and forward
namespace vp_dl
{
    struct Rec { long opens = 0, closes = 0, failed = 0; std::map<void*, long> live; std::set<std::string> paths; bool bad_close = false; int flags = 0; };
    inline Rec& rec() { static Rec r; return r; }
    inline void* open(const char* p, int f)
    {
        void* h = ::dlopen(p, f);
        if (h) { ++rec().opens; ++rec().live[h]; rec().paths.insert(p); rec().flags = f; } else ++rec().failed;
        return h;
    }
    inline int close(void* h)
    {
        auto it = rec().live.find(h);
        if (it == rec().live.end()) { rec().bad_close = true; return 1; }   // not forwarded: it would crash the monitor
        if (--it->second == 0) rec().live.erase(it);
        ++rec().closes;
        return ::dlclose(h);
    }
}
#define dlopen(...) vp_dl::open(__VA_ARGS__)
#define dlclose(...) vp_dl::close(__VA_ARGS__)
#include "vp.hpp"
#include "main.h"
static int tinydip_main(int, char**);
static void run_legacy_tests(Workspace&, std::span<const std::string_view>, std::ostream&);
static void difference_and_enhancement(std::string, std::string, double);
static void test();
static void bicubicInterpolationTest();
#define main tinydip_main
#include "main.cpp"
#undef main
#include <list>
#include <deque>
using namespace vp;

// what the plugins call back into
static std::vector<std::string> trace;
extern "C" __attribute__((visibility("default"), used)) void vp_register(void* reg, const char* name, int (*f)(int))
{
    static_cast<CommandRegistry*>(reg)->register_command(name, "plugin command", [f](Workspace& w, std::span<const std::string_view> a, std::ostream& os) {
        w.store("out", f((int)std::ranges::size(a)));
    });
}
extern "C" __attribute__((visibility("default"), used)) void vp_throw(const char* m) { throw std::runtime_error(m); }

enum Kind { GOOD, TWO, NOSYM, TEXT, EMPTY, THROWS, THROWS_AFTER, THROWS_OWN, UNRESOLVED, DIRECTORY, KINDS };
static const char* KN[] = { "good", "two", "nosymbol", "text", "empty", "throws", "throws-after", "throws-own", "unresolved", "directory" };
static std::string store_dir()
{
    static std::string dir = [] {
        std::string d = cat(std::getenv("VP_SCRATCH") ? std::getenv("VP_SCRATCH") : "/tmp", "/plugins-src");
        ::mkdir(d.c_str(), 0700);
        auto put = [&](const std::string& n, const std::string& t) { FILE* f = std::fopen((d + "/" + n).c_str(), "w"); std::fputs(t.c_str(), f); std::fclose(f); };
        const std::string head = "#ifdef __cplusplus\nextern \"C\" {\n#endif\nvoid vp_register(void*, const char*, int (*)(int)); void vp_throw(const char*);\n#ifdef __cplusplus\n}\n#endif\n";
        // commands are distinguished by their module: <module>_a adds its number
        for (int k = 0; k < 4; ++k)
        {
            put(cat("good", k, ".c"), cat(head, "static int f(int n) { return ", 1000 * (k + 1), " + n; }\nvoid register_plugin_commands(void* r) { vp_register(r, \"good", k, "\", f); vp_register(r, \"shared\", f); }\n"));
            put(cat("two", k, ".c"), cat(head, "static int f(int n) { return ", 10 * (k + 1), " + n; }\nstatic int g(int n) { return ", 77 + k, " * n; }\nvoid register_plugin_commands(void* r) { vp_register(r, \"two", k, "f\", f); vp_register(r, \"two", k, "g\", g); }\n"));
        }
        put("nosymbol0.c", "int something_else(void) { return 1; }\n");
        put("throws0.c", cat(head, "void register_plugin_commands(void* r) { vp_throw(\"refused early\"); }\n"));
        put("throws-after0.c", cat(head, "static int f(int n) { return 5 + n; }\nvoid register_plugin_commands(void* r) { vp_register(r, \"half\", f); vp_throw(\"refused late\"); }\n"));
        // a symbol that nobody defines: found out when loading, not when the command runs
        put("unresolved0.c", cat(head, "void vp_nobody_defines_this(void);\nstatic int f(int n) { if (n > 100) vp_nobody_defines_this(); return 7 + n; }\nvoid register_plugin_commands(void* r) { vp_register(r, \"unresolved\", f); }\n"));
        put("throws-own0.cc", cat(head, "#include <exception>\nnamespace { struct Own : std::exception { const char* what() const noexcept override { return \"an exception of the plugin's own\"; } }; int f(int n) { return 6 + n; } }\nextern \"C\" void register_plugin_commands(void* r) { vp_register(r, \"own\", f); throw Own(); }\n"));
        const std::string cmd = "cd '" + d + "' && for f in *.c; do gcc -shared -fPIC -fexceptions -Wl,-z,lazy -O1 -w \"$f\" -o \"${f%.c}.bin\" || exit 1; done; for f in *.cc; do g++ -shared -fPIC -O1 -w \"$f\" -o \"${f%.cc}.bin\" || exit 1; done";
        if (std::system(cmd.c_str()) != 0) { std::fprintf(stderr, "cannot build the test plugins\n"); std::_Exit(3); }
        put("text0.bin", "this is not a library\n"); put("empty0.bin", "");
        return d;
    }();
    return dir;
}
static void copy_file(const std::string& a, const std::string& b) { std::filesystem::copy_file(a, b, std::filesystem::copy_options::overwrite_existing); }
static std::size_t maps_lines(const std::string& what)
{
    std::ifstream f("/proc/self/maps"); std::string l; std::size_t n = 0;
    while (std::getline(f, l)) if (l.find(what) != std::string::npos) ++n;
    return n;
}
static std::string fresh_dir()
{
    static int n = 0;
    const std::string d = cat(std::getenv("VP_SCRATCH") ? std::getenv("VP_SCRATCH") : "/tmp", "/pl", n++);
    std::filesystem::remove_all(d); ::mkdir(d.c_str(), 0700);
    return d;
}
struct Cleaner { std::string d; ~Cleaner() { std::error_code e; std::filesystem::remove_all(d, e); } };

// ------------------------------------------------------------------------------- ownership of a library
VP_SECTION("ownership", 400, 6000)
{
    const std::string src = store_dir(), dir = fresh_dir();
    Cleaner cl{ dir };
    c.describe("moves #", r.next() % 100000);
    auto& R = vp_dl::rec(); R = {};
    std::vector<std::string> made;
    auto live = [&] { long n = 0; for (auto& [h, k] : R.live) n += k; return n; };
    {
        std::vector<DynamicLibrary> pool;      // element i is owned if own[i]
        std::vector<int> own;                  // module number, or -1 for moved-from
        auto check = [&](const char* when) {
            long want = 0; for (int o : own) want += o >= 0;
            require(live() == want, "library/ownership", live(), " libraries are open instead of ", want, " ", when);
            require(!R.bad_close, "library/double-close", "a library was closed that was not open ", when);
            for (std::size_t i = 0; i < pool.size(); ++i) if (own[i] >= 0)
            {
                const int k = own[i];
                // the registration function found is that of this library
                CommandRegistry reg; auto fn = pool[i].get_function<void (*)(CommandRegistry&)>("register_plugin_commands"); fn(reg);
                require(reg.get_schema(cat("good", k)).has_value(), "library/symbol", "the symbol of another library was found for module ", k);
                require(throws([&] { pool[i].get_function<void (*)()>("no_such_symbol_anywhere"); }), "library/missing-symbol", "a symbol that does not exist was found");
                event("symbols");
            }
        };
        for (int step = 0; step < 14; ++step)
        {
            switch (r.range(0, 6))
            {
            case 0: case 1:
            {
                const int k = (int)r.range(0, 3); const std::string p = cat(dir, "/m", step, ".so"); copy_file(cat(src, "/good", k, ".bin"), p);
                pool.emplace_back(std::filesystem::path(p)); own.push_back(k); made.push_back(p); event("opened");
                break;
            }
            case 2: // move construct
                if (!pool.empty()) { const std::size_t i = r.size(0, pool.size() - 1); DynamicLibrary t(std::move(pool[i])); pool.push_back(std::move(t)); const int o = own[i]; own[i] = -1; own.push_back(o); event("moved"); }
                break;
            case 3: // move assign: what the target held is closed
                if (pool.size() > 1) { const std::size_t i = r.size(0, pool.size() - 1), j = r.size(0, pool.size() - 1); if (i != j) { pool[i] = std::move(pool[j]); own[i] = own[j]; own[j] = -1; event("assigned"); } }
                break;
            case 4: // self assignment changes nothing
                if (!pool.empty()) { auto& p = pool[r.size(0, pool.size() - 1)]; auto& q = p; p = std::move(q); event("self_assigned"); }
                break;
            case 5: if (!pool.empty()) { const std::size_t i = r.size(0, pool.size() - 1); pool.erase(pool.begin() + (long)i); own.erase(own.begin() + (long)i); event("destroyed"); } break;
            default:
            {
                const std::string p = r.chance(0.5) ? src + "/text0.bin" : dir + "/missing.so";
                std::string what; try { DynamicLibrary bad{ std::filesystem::path(p) }; } catch (const std::runtime_error& e) { what = e.what(); }
                require(what.find(p) != std::string::npos, "library/refuse", "opening ", p, " gave '", what, "'");
                event("refused");
            }
            }
            check("after a step");
        }
    }
    require(live() == 0 && R.opens == R.closes && !R.bad_close, "library/closed-once", R.opens, " opened, ", R.closes, " closed");
    for (auto& p : made) require(maps_lines(p) == 0, "library/unloaded", p, " is still mapped");
}

// ------------------------------------------------------------------------------- loading a directory of plugins
template<class Container> static void loading(Rng& r, Case& c, const char* cn)
{
    const std::string src = store_dir(), dir = fresh_dir();
    Cleaner cl{ dir };
    struct File { std::string name; Kind kind; int number; bool ours; };
    std::vector<File> files; std::string d;
    const int n = r.chance(0.04) ? (int)r.range(8, 40) : (int)r.range(0, 7);
    if (n > 7) event("large_directories");
    static const char* EXT[] = { ".so", ".dll", ".dylib", ".txt", "", ".so.bak", ".SO" };
    for (int i = 0; i < n; ++i)
    {
        const Kind k = (Kind)r.range(0, KINDS - 1);
        const int num = k == GOOD || k == TWO ? (int)r.range(0, 3) : 0;
        const int e = r.chance(0.8) ? (int)r.range(0, 2) : (int)r.range(3, 6);
        File f{ cat("p", i, EXT[e]), k, num, e < 3 };
        if (k == DIRECTORY) ::mkdir((dir + "/" + f.name).c_str(), 0700);
        else copy_file(cat(src, "/", KN[k], num, ".bin"), dir + "/" + f.name);
        d += cat(f.name, "=", KN[k], num, " "); files.push_back(f);
    }
    const bool twice = r.chance(0.3);
    c.describe(cn, " ", d, twice ? "twice" : "");
    auto& R = vp_dl::rec(); R = {};
    long held = 0;
    {
        Container active;
        CommandRegistry reg;
        Workspace ws;
        reg.register_command("core", "a command of the program", IndependentSchema, [](Workspace& w, std::span<const std::string_view>, std::ostream&) { w.store("out", 1); });
        for (int round = 0; round <= (twice ? 1 : 0); ++round)
        {
            std::ostringstream os;
            load_plugins(reg, active, std::filesystem::path(dir), os);
            const std::string said = os.str();
            std::size_t warned = 0; for (std::size_t p = 0; (p = said.find("Warning: Module skipped", p)) != std::string::npos; ++p) ++warned;
            std::size_t bad = 0;
            for (auto& f : files)
            {
                const bool good = f.ours && (f.kind == GOOD || f.kind == TWO);
                require((said.find("Loaded module: " + f.name + "\n") != std::string::npos) == good, "plugins/report", f.name, " (", KN[f.kind], ") was ", good ? "not reported as loaded" : "reported as loaded", ":\n", said);
                bad += f.ours && !good;
            }
            require(warned == bad, "plugins/report", warned, " modules reported as skipped instead of ", bad, ":\n", said);
            event("skipped", bad);
        }
        // every command of every good module runs in its own module's code; the program's commands are untouched
        std::set<int> shared_ok;
        for (auto& f : files) if (f.ours)
        {
            auto run = [&](const std::string& name, std::size_t args) {
                ws.clear();
                std::vector<std::string_view> a(args, "x"); std::ostringstream os;
                reg.execute(ws, name, a, os);
                const int* v = ws.retrieve<int>("out");
                return v ? *v : -1;
            };
            const std::size_t na = r.size(0, 3);
            if (f.kind == GOOD) { require(run(cat("good", f.number), na) == 1000 * (f.number + 1) + (int)na, "plugins/command", "good", f.number, " of ", f.name); shared_ok.insert(1000 * (f.number + 1)); const int s = run("shared", 0); bool any = false; for (auto& g : files) any = any || (g.ours && g.kind == GOOD && s == 1000 * (g.number + 1)); require(any, "plugins/command", "the command registered twice answers ", s); event("commands", 2); }
            if (f.kind == TWO) { require(run(cat("two", f.number, "f"), na) == 10 * (f.number + 1) + (int)na && run(cat("two", f.number, "g"), na) == (77 + f.number) * (int)na, "plugins/command", "two", f.number, " of ", f.name); event("commands", 2); }
            // what a failing module had registered is gone or still works, but never runs unloaded code
            if (f.kind == THROWS_AFTER) { const int v = run("half", na); require(v == -1 || v == 5 + (int)na, "plugins/failed-module", "answers ", v); event("after_failure"); }
            if (f.kind == THROWS_OWN) { const int v = run("own", na); require(v == -1 || v == 6 + (int)na, "plugins/failed-module", "answers ", v); event("after_failure"); }
            require(run("core", 0) == 1, "plugins/core", "a command of the program is gone");
        }
        if (files.empty()) event("empty_directories");
        // every module is held by the container, none twice
        for (auto& [h, k] : R.live) held += k;
        require(held == (long)std::ranges::distance(active), "plugins/held", held, " libraries are open, the container holds ", (long)std::ranges::distance(active));
        event("held", (std::uint64_t)held);
    }
    require(R.live.empty() && R.opens == R.closes && !R.bad_close, "plugins/closed-once", R.opens, " opened, ", R.closes, " closed");
    event("directories");
}
VP_SECTION("vector", 500, 8000) { loading<std::vector<DynamicLibrary>>(r, c, "vector"); }
VP_SECTION("deque", 200, 3000) { loading<std::deque<DynamicLibrary>>(r, c, "deque"); }
VP_SECTION("list", 200, 3000) { loading<std::list<DynamicLibrary>>(r, c, "list"); }
VP_SECTION("no_directory", 60, 600)
{
    const std::string dir = fresh_dir(); Cleaner cl{ dir };
    const bool file = r.chance(0.5); const std::string p = dir + "/nothing" + std::to_string(r.range(0, 9999));
    c.describe(file ? "file" : "missing", " ", p.size(), " #", r.next() % 10000);
    if (file) { std::ofstream f(p); f << "x"; }
    CommandRegistry reg; std::vector<DynamicLibrary> v; std::ostringstream os;
    load_plugins(reg, v, std::filesystem::path(p), os);
    require(v.empty() && os.str().find("No " + p + " directory found") != std::string::npos, "plugins/no-directory", "said '", os.str(), "'");
    event("no_directory");
}
