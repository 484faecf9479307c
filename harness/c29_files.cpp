// C29: what the commands write to files they read back unchanged; whole workspaces survive save and load;
// a command whose file cannot be written or read says so and changes nothing.
#include <csignal>
#include <sys/resource.h>
#include "vp.hpp"
#include "ws.hpp"
#include <fstream>
#include "main.h"
static int tinydip_main(int, char**);
static void run_legacy_tests(Workspace&, std::span<const std::string_view>, std::ostream&);
static void difference_and_enhancement(std::string, std::string, double);
static void test();
static void bicubicInterpolationTest();
#define main tinydip_main
#include "main.cpp"
#undef main
#include <variant>
using namespace vp;
using TinyDIP::Image; using TinyDIP::RGB; using TinyDIP::HSV;
namespace
{
using Args = std::span<const std::string_view>;
using Val = std::variant<Image<RGB>, Image<double>, Image<HSV>, int, std::vector<double>, Image<unsigned char>>;
template<class T> bool bits(const T& a, const T& b) { return std::memcmp(&a, &b, sizeof(T)) == 0; }
template<class T> bool same_img(const Image<T>& a, const Image<T>& b)
{
    if (a.getSize() != b.getSize()) return false;
    auto x = a.getImageData(), y = b.getImageData();
    for (std::size_t i = 0; i < x.size(); ++i)
    {
        if constexpr (requires { x[i].channels; }) { for (int k = 0; k < 3; ++k) if (!bits(x[i].channels[k], y[i].channels[k])) return false; }
        else if (!bits(x[i], y[i])) return false;
    }
    return true;
}
bool same(const Val& v, const std::any& a)
{
    return std::visit([&](auto& x) {
        using T = std::remove_cvref_t<decltype(x)>;
        const T* p = std::any_cast<T>(&a);
        if (!p) return false;
        if constexpr (requires { x.getImageData(); }) return same_img(x, *p); else return x == *p;
    }, v);
}
std::vector<std::size_t> shape(Rng& r)
{
    const auto e = [&] { return r.chance(0.2) ? std::size_t(1) : r.size(1, 17); };
    if (r.chance(0.02)) { event("long_images"); const std::size_t n = r.size(65, 300), m = r.size(1, 5); return r.chance(0.5) ? std::vector<std::size_t>{ n, m } : std::vector<std::size_t>{ m, n }; }
    return { e(), e() };
}
double wild(Rng& r)
{
    switch (r.range(0, 7)) { case 0: return 0.0; case 1: return -0.0; case 2: return 1e-310; case 3: return r.real(-1e300, 1e300); case 4: return 255; default: return r.real(-1000, 1000); }
}
Image<RGB> rgb(Rng& r) { const auto s = shape(r); Image<RGB> im(s); for (auto& p : im.getImageData()) for (auto& c : p.channels) c = (std::uint8_t)r.next(); return im; }
Image<double> dbl(Rng& r, bool text = false) { const auto s = shape(r); Image<double> im(s); for (auto& p : im.getImageData()) p = text ? (double)r.range(-4000, 4000) / 4 : wild(r); return im; }
Image<HSV> hsv(Rng& r) { const auto s = shape(r); Image<HSV> im(s); for (auto& p : im.getImageData()) for (auto& c : p.channels) c = wild(r); return im; }
Val value(Rng& r, int k)
{
    switch (k)
    {
    case 0: return rgb(r);
    case 1: return dbl(r);
    case 2: return hsv(r);
    case 3: return (int)r.range(-99, 99);
    case 4: { std::vector<double> v(r.size(0, 5)); for (auto& x : v) x = r.unit(); return v; }
    default: { const auto s = shape(r); Image<unsigned char> im(s); for (auto& p : im.getImageData()) p = (unsigned char)r.next(); return im; }
    }
}
const char* KN[] = { "rgb", "double", "hsv", "int", "vector", "u8" };
void put(Workspace& w, const std::string& n, const Val& v) { std::visit([&](auto& x) { w.store(n, x); }, v); }
struct Dir
{
    std::string d;
    Dir() { static int n = 0; d = cat(tmpdir(), "/f", n++); std::filesystem::remove_all(d); std::filesystem::create_directory(d); }
    ~Dir() { std::error_code e; std::filesystem::remove_all(d, e); }
};
struct Limit
{
    rlimit old{};
    explicit Limit(std::size_t n) { std::signal(SIGXFSZ, SIG_IGN); getrlimit(RLIMIT_FSIZE, &old); rlimit l = old; l.rlim_cur = n; setrlimit(RLIMIT_FSIZE, &l); }
    ~Limit() { setrlimit(RLIMIT_FSIZE, &old); }
};
const CommandRegistry& registry()
{
    static CommandRegistry R = [] {
        CommandRegistry g;
        g.register_command("read", "", GeneratorSchema, [](Workspace& w, Args a, std::ostream& os) { handlers::read(w, a, os); });
        g.register_command("write", "", TerminatorSchema, [](Workspace& w, Args a, std::ostream& os) { handlers::write(w, a, os); });
        g.register_command("save_workspace", "", IndependentSchema, [](Workspace& w, Args a, std::ostream& os) { handlers::save_workspace(w, a, os); });
        g.register_command("load_workspace", "", IndependentSchema, [](Workspace& w, Args a, std::ostream& os) { handlers::load_workspace(w, a, os); });
        return g;
    }();
    return R;
}
std::string run(Workspace& w, const std::vector<std::string>& line)
{
    std::vector<std::string_view> a(line.begin() + 1, line.end());
    std::ostringstream os;
    registry().execute(w, line[0], a, os);
    return os.str();
}
bool complained(const std::string& s) { return s.find("rror") != std::string::npos; }
using Model = std::map<std::string, Val>;
void compare(const Workspace& w, const Model& m, const char* when)
{
    const auto held = vp::contents(w);
    require(held.size() == m.size(), "files/variables", held.size(), " variables instead of ", m.size(), " ", when);
    for (auto& [n, v] : m)
    {
        auto it = held.find(n);
        require(it != held.end(), "files/variables", "$", n, " is gone ", when);
        require(same(v, it->second), "files/value", "$", n, " has another value or type ", when);
    }
    event("variables_compared", m.size());
}
const char* NAMES[] = { "a", "img", "x.y", "Result_1", "v2.final", "tmp-3", "z" };
// further names for the larger bundles: digits, capitals, prefixes of one another, endings that look like file types, long ones
std::string name_of(std::size_t i)
{
    static const std::vector<std::string> more{ "A", "a1", "a10", "7", "img.bmp", "img.dbmp", "copy.hsv", "data.csv", "_", "IMG", "with space", "long_name_of_a_variable_that_goes_on_and_on_for_more_than_sixty_four_characters_in_all", "x.y.z", "ppm" };
    if (i < 7) return NAMES[i];
    return i - 7 < more.size() ? more[i - 7] : cat("n", i);
}
}

VP_SECTION("write_read", 400, 6000)
{
    Dir d; Workspace w; Model m;
    const int n = (int)r.range(1, 5);
    std::string desc;
    for (int i = 0; i < n; ++i)
    {
        const int k = (int)r.range(0, 2);
        const std::string name = NAMES[r.size(0, 6)];
        const bool text = k < 2 && r.chance(0.4);           // .ppm or .csv
        const Val v = k == 1 && text ? Val(dbl(r, true)) : value(r, k);
        put(w, name, v); m[name] = v;
        static const char* EXT[2][3] = { { ".bmp", ".dbmp", ".hsv" }, { ".ppm", ".csv", ".hsv" } };
        const bool bare = !text && r.chance(0.2);            // the writer adds the extension of the type
        const std::string stem = cat(d.d, "/file", i), full = stem + EXT[text][k];
        desc += cat(KN[k], text ? "-text " : " ");
        c.describe(i ? "" : "write/read ", KN[k], text ? "-text" : "", bare ? "-bare " : " ");
        const std::string quote = r.chance(0.2) ? "\"" : "";
        std::string said = run(w, { "write", "$" + name, quote + (bare ? stem : full) + quote });
        require(!complained(said), "files/write", "writing ", full, " said: ", said);
        require(std::filesystem::exists(full), "files/write", full, " does not exist");
        compare(w, m, "after writing");
        // read it into a named variable, or one named after the file
        const bool named = r.chance(0.6);
        const std::string into = named ? cat("r", r.range(0, 3)) : cat("file", i);
        const bool bare_read = k == 0 && !text && r.chance(0.3);
        said = named ? run(w, { "read", quote + (bare_read ? stem : full) + quote, "$" + into }) : run(w, { "read", bare_read ? stem : full });
        require(!complained(said), "files/read", "reading ", full, " said: ", said);
        m[into] = v;
        compare(w, m, "after reading back");
        event(text ? (k ? "csv" : "ppm") : (k == 0 ? "bmp" : k == 1 ? "dbmp" : "hsv"));
        if (bare || bare_read) event("bare_names");
        if (!named) event("named_after_file");
    }
}

VP_SECTION("bundle", 400, 6000)
{
    Dir d; Workspace w; Model m, keep;
    const int n = r.chance(0.08) ? (int)r.range(8, 40) : (int)r.range(0, 7);
    if (n > 7) event("large_bundles");
    c.describe("bundle ");
    for (int i = 0; i < n; ++i)
    {
        const int k = r.chance(0.7) ? (int)r.range(0, 2) : (int)r.range(3, 5);
        const std::string name = name_of((std::size_t)i);
        const Val v = value(r, k); put(w, name, v); m[name] = v;
        if (k < 3) keep[name] = v;
        c.describe(name, "=", KN[k], " ");
    }
    const std::string dir = d.d + (r.chance(0.5) ? "/new/deeper" : "/b");
    std::string said = run(w, { "save_workspace", dir });
    require(!complained(said) && said.find("saved successfully") != std::string::npos, "bundle/save", said);
    compare(w, m, "after saving");
    for (auto& [name, v] : m) require((said.find("Skipped $" + name + " ") != std::string::npos) == !keep.contains(name), "bundle/report", "$", name, ": ", said);
    event("skipped_reported", m.size() - keep.size());
    // a bundle is a directory: images written into it by the write command are loaded with the rest, other files are left alone
    if (r.chance(0.25))
    {
        Workspace one;
        const Val p = rgb(r), q = dbl(r, true);
        put(one, "p", p); put(one, "q", q);
        require(!complained(run(one, { "write", "$p", dir + "/extra_p.ppm" })) && !complained(run(one, { "write", "$q", dir + "/extra_q.csv" })), "bundle/extra", "cannot add files to the bundle");
        keep["extra_p"] = p; keep["extra_q"] = q;
        std::ofstream(dir + "/notes.txt") << "not an image";
        std::filesystem::create_directory(dir + "/folder.bmp");
        event("bundles_with_extra_files");
    }
    // into a fresh workspace, or one that already holds variables (some of the same name)
    Workspace w2; Model m2;
    const int others = (int)r.range(0, 4);
    for (int i = 0; i < others; ++i) { const std::string name = r.chance(0.5) ? NAMES[r.size(0, 6)] : cat("other", i); const Val v = value(r, (int)r.range(0, 5)); put(w2, name, v); m2[name] = v; }
    said = run(w2, { "load_workspace", dir });
    require(!complained(said), "bundle/load", said);
    for (auto& [name, v] : keep) m2[name] = v;
    compare(w2, m2, "after loading");
    event("bundles"); event("images_restored", keep.size());
    // and again: a bundle of the loaded workspace is the same bundle
    if (r.chance(0.3))
    {
        Workspace w3; run(w2, { "save_workspace", d.d + "/again" }); run(w3, { "load_workspace", d.d + "/again" });
        Model m3; for (auto& [name, v] : m2) if (v.index() < 3) m3[name] = v;
        compare(w3, m3, "after a second round"); event("second_rounds");
    }
}

VP_SECTION("faults", 250, 4000)
{
    Dir d; Workspace w; Model m;
    const int k = (int)r.range(0, 2);
    const Val v = value(r, k); put(w, "v", v); m["v"] = v;
    static const char* EXT[3][2] = { { ".bmp", ".ppm" }, { ".dbmp", ".csv" }, { ".hsv", ".hsv" } };
    const std::string ext = EXT[k][r.range(0, 1)];
    const std::string full = d.d + "/f" + ext;
    const int kind = (int)r.range(0, 4);
    c.describe("fault ", kind, " ", ext, " ");
    std::string said;
    switch (kind)
    {
    case 0: // no such directory
        said = run(w, { "write", "$v", d.d + "/missing/f" + ext });
        require(complained(said), "faults/silent", "writing into a missing directory said: ", said);
        event("write_refused"); break;
    case 1: // the device is full after some bytes
    {
        said = run(w, { "write", "$v", full });
        require(!complained(said), "files/write", said);
        const std::size_t len = std::filesystem::file_size(full), cut = r.size(0, len - 1);
        c.describe(cut, "/", len);
        { Limit l(cut); said = run(w, { "write", "$v", d.d + "/g" + ext }); }
        require(complained(said), "faults/silent", "only ", cut, " of ", len, " bytes could be written, it said: ", said);
        event("write_cut"); break;
    }
    case 2: // saving a bundle
    {
        const int others = (int)r.range(0, 2);
        for (int i = 0; i < others; ++i) { const Val o = value(r, (int)r.range(0, 2)); put(w, cat("o", i), o); m[cat("o", i)] = o; }
        run(w, { "save_workspace", d.d + "/b" });
        std::size_t longest = 0; for (auto& e : std::filesystem::directory_iterator(d.d + "/b")) longest = std::max(longest, (std::size_t)e.file_size());
        const std::size_t cut = r.size(0, longest - 1);
        c.describe(cut, "/", longest);
        { Limit l(cut); said = run(w, { "save_workspace", d.d + "/b2" }); }
        require(complained(said) && said.find("saved successfully") == std::string::npos, "faults/silent", "a bundle cut at ", cut, " of ", longest, " bytes: ", said);
        event("bundle_cut"); break;
    }
    case 3: // nothing there to read
        said = run(w, { "read", full, "$v" });
        require(complained(said), "faults/silent", "reading a missing file said: ", said);
        event("read_refused"); break;
    default:
        said = run(w, r.chance(0.5) ? std::vector<std::string>{ "write", "$nothing", full } : std::vector<std::string>{ "load_workspace", d.d + "/nothing" });
        require(complained(said), "faults/silent", said);
        require(!std::filesystem::exists(full), "faults/silent", "a file was written for a variable that does not exist");
        event("missing_operand");
    }
    compare(w, m, "after a failing command");
}
