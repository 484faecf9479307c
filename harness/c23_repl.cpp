// C23: workspace, command registry, interactive pipelines and their optimizer.
#include "vp.hpp"
#include "main.h"
// everything of the program but its entry point; internal linkage keeps the unused parts out of the object file
static int tinydip_main(int, char**);
static void run_legacy_tests(Workspace&, std::span<const std::string_view>, std::ostream&);
static void difference_and_enhancement(std::string, std::string, double);
static void test();
static void bicubicInterpolationTest();
#define main tinydip_main
#include "main.cpp"
#undef main
#include <list>
#include <variant>
using vp::require; using vp::event; using vp::cat; using vp::throws; using vp::Rng; using vp::Case; using vp::fail;
namespace
{
using Args = std::span<const std::string_view>;
// ---------------------------------------------------------------------------------------------- workspace histories
using Val = std::variant<int, double, std::string, std::vector<double>, TinyDIP::Image<double>>;
Val rnd_val(Rng& r)
{
    switch (r.range(0, 4))
    {
    case 0: return (int)r.range(-1000, 1000);
    case 1: return r.real(-10, 10);
    case 2: return std::string("text") + std::to_string(r.range(0, 999));
    case 3: { std::vector<double> v(r.size(0, 6)); for (auto& x : v) x = r.real(0, 1); return v; }
    default: { const std::vector<std::size_t> s{ r.size(1, 4), r.size(1, 4) }; TinyDIP::Image<double> im(s); for (auto& x : im.getImageData()) x = r.real(0, 1); return im; }
    }
}
bool same(const Val& a, const Val& b)
{
    if (a.index() != b.index()) return false;
    if (auto* p = std::get_if<TinyDIP::Image<double>>(&a)) { auto& q = std::get<TinyDIP::Image<double>>(b); return p->getSize() == q.getSize() && p->getImageData() == q.getImageData(); }
    if (auto* p = std::get_if<int>(&a)) return *p == std::get<int>(b);
    if (auto* p = std::get_if<double>(&a)) return *p == std::get<double>(b);
    if (auto* p = std::get_if<std::string>(&a)) return *p == std::get<std::string>(b);
    return std::get<std::vector<double>>(a) == std::get<std::vector<double>>(b);
}
template<class T> const T* get_as(const Workspace& w, std::string_view n) { return w.retrieve<T>(n); }
std::string dress(Rng& r, const std::string& n)
{
    switch (r.range(0, 7)) { case 0: return " " + n; case 1: return n + "\r"; case 2: return "\"" + n + "\""; case 3: return "'" + n + "' "; case 4: return "\t" + n + "\n"; default: return n; }
}
// six names that are easily confused, and now and then many more: prefixes of one another, long ones with one ending, digits, other alphabets
std::vector<std::string> pool(Rng& r)
{
    std::vector<std::string> n{ "a", "b", "img", "long_variable_name_that_does_not_fit", "x1", "A" };
    if (r.chance(0.7)) return n;
    const std::string deep((std::size_t)r.range(30, 300), 'v');
    for (auto& x : std::vector<std::string>{ "aa", "ab", "img_", "im", "IMG", "0", "1", "10", "-1", "seq", "par", "a.bmp", "a=b", "|", "\u00e9t\u00e9", deep, deep + "1", deep + "2", deep + "v" }) n.push_back(x);
    if (r.chance(0.4)) for (int i = 0; i < 60; ++i) n.push_back(cat("n", i));
    event("wide_name_pools");
    return n;
}
void whole(const Workspace& w, const std::map<std::string, Val>& m, const std::string& when, const std::vector<std::string>& names)
{
    for (auto& n : names)
    {
        auto it = m.find(n);
        auto any = w.retrieve_any(n);
        require(any.has_value() == (it != m.end()), "workspace/presence", "$", n, it == m.end() ? " exists " : " is missing ", when);
        const int* i = get_as<int>(w, n); const double* d = get_as<double>(w, n); const std::string* s = get_as<std::string>(w, n);
        const auto* v = get_as<std::vector<double>>(w, n); const auto* im = get_as<TinyDIP::Image<double>>(w, n);
        const std::size_t found = (i != nullptr) + (d != nullptr) + (s != nullptr) + (v != nullptr) + (im != nullptr);
        require(found == (it != m.end() ? 1u : 0u), "workspace/typed", "$", n, " is visible as ", found, " types ", when);
        require(get_as<float>(w, n) == nullptr && get_as<TinyDIP::Image<TinyDIP::RGB>>(w, n) == nullptr, "workspace/typed", "$", n, " is visible as another type");
        if (it == m.end()) continue;
        const Val got = i ? Val(*i) : d ? Val(*d) : s ? Val(*s) : v ? Val(*v) : Val(*im);
        require(same(got, it->second), "workspace/value", "$", n, " has another value ", when);
        require(any->type() == std::visit([](auto& x) -> const std::type_info& { return typeid(x); }, it->second), "workspace/any-type", "$", n, " has another type ", when);
        const Val ga = std::visit([&](auto& x) { return Val(std::any_cast<std::remove_cvref_t<decltype(x)>>(*any)); }, it->second);
        require(same(ga, it->second), "workspace/any-value", "$", n, " has another value ", when);
        event("workspace_reads");
    }
}
VP_SECTION("workspace", 500, 8000)
{
    Workspace w;
    std::map<std::string, Val> m;
    const auto names = pool(r);
    std::string hist;
    const int steps = (int)r.range(4, 25) * (names.size() > 30 ? 8 : names.size() > 6 ? 3 : 1);
    c.describe(steps, " steps ", r.next() % 1000000);
    for (int k = 0; k < steps; ++k)
    {
        const std::string n = r.pick(names), o = r.pick(names), dn = dress(r, n), dst = dress(r, o);
        std::string when;
        switch (r.range(0, 9))
        {
        case 0: case 1: case 2: case 3:
        {
            const Val v = rnd_val(r);
            const bool mv = r.chance(0.5);
            std::visit([&](auto x) { if (mv) w.store(dn, std::move(x)); else { const auto keep = x; w.store(dn, keep); require(same(Val(keep), v), "workspace/store-source", "storing changed the source"); } }, v);
            m.insert_or_assign(n, v); when = "after storing $" + n; event("stores");
            break;
        }
        case 4: { const bool had = m.erase(n) > 0; require(w.remove(dn) == had, "workspace/remove-result", "removing $", n, " reports ", !had); when = "after removing $" + n; event(had ? "removed" : "remove_missing"); break; }
        case 5: case 6:
        {
            const bool had = m.count(n) > 0;
            require(w.rename(dn, dst) == had, "workspace/rename-result", "renaming $", n, " to $", o, " reports ", !had);
            if (had && n != o) { Val v = m.at(n); m.erase(n); m.insert_or_assign(o, v); }
            when = "after renaming $" + n + " to $" + o; event(had ? (n == o ? "rename_self" : "renamed") : "rename_missing");
            break;
        }
        case 7: if (r.chance(0.3)) { w.clear(); m.clear(); when = "after clearing"; event("cleared"); break; } [[fallthrough]];
        case 8: // a copied value is independent of the variable
        {
            if (auto any = w.retrieve_any(dn)) { w.store(dst, *any); Val v = m.at(n); m.insert_or_assign(o, v); if (n != o) { std::visit([&](auto x) { w.store(n, rnd_val(r).index() ? x : x); }, m.at(n)); } }
            when = "after copying $" + n + " to $" + o; event("copied");
            break;
        }
        default:
        {
            std::ostringstream os; w.list_variables(os);
            const std::string t = os.str();
            const std::size_t lines = (std::size_t)std::count(t.begin(), t.end(), '\n');
            require(lines == (m.empty() ? 1 : m.size()), "workspace/list", lines, " lines for ", m.size(), " variables");
            for (auto& nm : names) { const bool shown = t.find("$" + nm + " ") != std::string::npos; require(shown == (m.count(nm) > 0), "workspace/list", "$", nm, shown ? " is listed" : " is not listed"); }
            std::istringstream is(t);
            for (std::string line; std::getline(is, line);)
                for (auto& [nm, val] : m)
                    if (line.find("$" + nm + " ") != std::string::npos)
                    {
                        require(line.find("$" + nm + " ") == line.rfind("$"), "workspace/list-once", "listed as ", line);
                        if (auto* i = std::get_if<int>(&val)) require(line.ends_with(" " + std::to_string(*i)), "workspace/list-value", *i, " is listed as ", line);
                        if (auto* im = std::get_if<TinyDIP::Image<double>>(&val))
                        {
                            std::string z;
                            for (auto e : im->getSize()) z += (z.empty() ? "" : " x ") + std::to_string(e);
                            require(line.find(z) != std::string::npos, "workspace/list-size", "the listing of a ", z, " image says ", line);
                            event("listed_sizes");
                        }
                    }
            when = "after listing"; event("listed");
        }
        }
        whole(w, m, when, names);
    }
}
// ---------------------------------------------------------------------------------------------- registry
VP_SECTION("registry", 400, 6000)
{
    CommandRegistry reg;
    struct Info { int id; IOSchema s; int mode; };
    std::map<std::string, Info> model;
    std::vector<std::pair<int, std::vector<std::string>>> calls, want;
    std::vector<std::string> names{ "one", "two", "three", "a_rather_long_command_name", "One", "five" };
    if (r.chance(0.2)) { for (int i = 0; i < 90; ++i) names.push_back(cat(r.pick(std::vector<std::string>{ "cmd", "one", "a_rather_long_command_name" }), i)); event("wide_registries"); }
    const int n = names.size() > 6 ? (int)r.range(40, 160) : (int)r.range(1, 8);
    c.describe(n, " registrations ", r.next() % 1000000);
    for (int id = 0; id < n; ++id)
    {
        const std::string nm = r.pick(names);
        const int mode = (int)r.range(0, 4);
        const IOSchema s = r.pick(std::vector<IOSchema>{ GeneratorSchema, TerminatorSchema, TransformerSchema, CombinerSchema, IndependentSchema });
        CommandHandler h = [id, mode, &calls](Workspace& w, Args a, std::ostream& os) {
            calls.emplace_back(id, std::vector<std::string>(a.begin(), a.end()));
            os << "ran" << id << "\n"; w.store("last", id);
            if (mode == 0) throw std::runtime_error("went wrong #" + std::to_string(id));
            if (mode == 1) throw std::invalid_argument("bad argument #" + std::to_string(id));
        };
        const bool plain = r.chance(0.3);
        if (plain) reg.register_command(nm, "described", h); else reg.register_command(nm, "described", s, h);
        model.emplace(nm, Info{ id, plain ? IOSchema{ -1, -1 } : s, mode });
        if (model.at(nm).id != id) event("duplicate_registrations");
    }
    for (auto& nm : names)
    {
        auto s = reg.get_schema(nm);
        auto it = model.find(nm);
        require(s.has_value() == (it != model.end()), "registry/known", nm);
        if (s) require(s->in_idx == it->second.s.in_idx && s->out_idx == it->second.s.out_idx, "registry/schema", nm, " has another schema");
    }
    std::ostringstream ls; reg.list_commands(ls);
    for (auto& nm : names) require((ls.str().find("  " + nm + " ") != std::string::npos) == (model.count(nm) > 0), "registry/list", nm);
    Workspace w;
    for (int k = 0; k < 10; ++k)
    {
        const std::string nm = r.pick(names);
        std::vector<std::string> a(r.chance(0.1) ? r.size(5, 80) : r.size(0, 4)); for (auto& x : a) x = r.chance(0.02) ? std::string(r.size(100, 3000), 'q') : r.pick(std::vector<std::string>{ "", "$a", "par", "x y", "1.5", "|" });
        std::vector<std::string_view> sv(a.begin(), a.end());
        std::ostringstream os;
        try { reg.execute(w, nm, sv, os); } catch (...) { fail("registry/escaped", cat("an exception escaped from the execution of ", nm)); }
        auto it = model.find(nm);
        if (it == model.end()) { require(os.str().find(nm) != std::string::npos, "registry/unknown", "no report of ", nm); event("unknown_executed"); continue; }
        want.emplace_back(it->second.id, a);
        require(calls == want, "registry/calls", "executing ", nm, " called handlers ", calls.size(), " times instead of ", want.size(), " or another one");
        require(w.retrieve<int>("last") && *w.retrieve<int>("last") == it->second.id, "registry/workspace", "the handler worked on another workspace");
        require(os.str().find("ran" + std::to_string(it->second.id)) != std::string::npos, "registry/stream", "the handler's output is lost");
        if (it->second.mode < 2) { require(os.str().find("#" + std::to_string(it->second.id)) != std::string::npos && os.str().find(nm) != std::string::npos, "registry/error", "the error of ", nm, " is not reported"); event("errors_reported"); }
        event("executed");
    }
    require(calls == want, "registry/calls", "handlers were called ", calls.size(), " times instead of ", want.size());
}

// ---------------------------------------------------------------------------------------------- pipelines
bool is_policy(std::string_view s) { return s == "seq" || s == "par" || s == "par_unseq" || s == "unseq"; }
double number(std::string s)
{
    while (!s.empty() && (s.front() == '\'' || s.front() == '"')) s.erase(s.begin());
    while (!s.empty() && (s.back() == '\'' || s.back() == '"')) s.pop_back();
    return std::strtod(s.c_str(), nullptr);
}
// model commands on numbers: exact arithmetic, dct2 and idct2 undo each other exactly
struct Files { std::map<std::string, double> f; };
double fn(const std::string& cmd, double x, double k)
{
    if (cmd == "dct2") return 2 * x + 1;
    if (cmd == "idct2") return (x - 1) / 2;
    if (cmd == "multiply") return x * k;
    if (cmd == "inc") return x + k;
    return -x; // neg
}
// rounding aside: the optimizer may drop a chain that returns its input only to within rounding
bool near(double a, double b) { return std::fabs(a - b) <= 1e-12 * (std::fabs(a) + std::fabs(b) + 1); }
struct Entry { std::string what; double v; bool operator==(const Entry& o) const { return what == o.what && near(v, o.v); } };
bool alike(const std::map<std::string, double>& a, const std::map<std::string, double>& b) { return std::equal(a.begin(), a.end(), b.begin(), b.end(), [](auto& x, auto& y) { return x.first == y.first && near(x.second, y.second); }); }
struct World
{
    CommandRegistry reg; Files files; std::vector<Entry> log; std::size_t calls = 0;
    double load(Workspace& w, std::string_view a)
    {
        if (!a.empty() && a[0] == '$') { auto any = w.retrieve_any(a.substr(1)); if (!any || any->type() != typeid(double)) throw std::invalid_argument("no variable " + std::string(a)); return std::any_cast<double>(*any); }
        auto it = files.f.find(std::string(a)); if (it == files.f.end()) throw std::runtime_error("no file " + std::string(a));
        return it->second;
    }
    void save(Workspace& w, std::string_view a, double v) { if (!a.empty() && a[0] == '$') w.store(a.substr(1), v); else files.f[std::string(a)] = v; }
    static std::vector<std::string> plain(Args a) { std::vector<std::string> o; for (auto& x : a) if (!is_policy(x)) o.emplace_back(x); return o; }
    static void need(const std::vector<std::string>& a, std::size_t n) { if (a.size() < n) throw std::invalid_argument("too few arguments"); }
    World()
    {
        reg.register_command("gen", "", GeneratorSchema, [this](Workspace& w, Args x, std::ostream&) { auto a = plain(x); ++calls; need(a, 2); save(w, a[1], number(a[0])); });
        for (const char* n : { "dct2", "idct2", "neg" })
            reg.register_command(n, "", TransformerSchema, [this, n = std::string(n)](Workspace& w, Args x, std::ostream&) { auto a = plain(x); ++calls; need(a, 2); save(w, a[1], fn(n, load(w, a[0]), 0)); });
        for (const char* n : { "multiply", "inc" })
            reg.register_command(n, "", TransformerSchema, [this, n = std::string(n)](Workspace& w, Args x, std::ostream&) { auto a = plain(x); ++calls; need(a, 3); save(w, a[1], fn(n, load(w, a[0]), number(a[2]))); });
        reg.register_command("sub", "", CombinerSchema, [this](Workspace& w, Args x, std::ostream&) { auto a = plain(x); ++calls; need(a, 3); save(w, a[2], load(w, a[0]) - load(w, a[1])); });
        reg.register_command("show", "", TerminatorSchema, [this](Workspace& w, Args x, std::ostream&) { auto a = plain(x); ++calls; need(a, 1); log.push_back({ "show", load(w, a[0]) }); });
        reg.register_command("log", "", IndependentSchema, [this](Workspace&, Args x, std::ostream&) { ++calls; std::string s = "log"; for (auto& q : x) s += " " + std::string(q); log.push_back({ s, 0 }); });
        reg.register_command("boom", "", IndependentSchema, [this](Workspace&, Args, std::ostream&) { ++calls; log.push_back({ "boom", 0 }); throw std::runtime_error("boom failed"); });
        reg.register_command("copy", "", IndependentSchema, handlers::copy);
        reg.register_command("rename", "", IndependentSchema, handlers::rename);
        reg.register_command("remove", "", IndependentSchema, handlers::remove);
    }
};
struct Model { std::map<std::string, double> v, f; std::vector<Entry> log; };
struct Gen
{
    Rng& r; Model& m;
    const std::vector<std::string> vars{ "$a", "$b", "$c", "$out", "$img_2" }, fils{ "f1.bmp", "f2.bmp" };
    std::string spaces() { return r.pick(std::vector<std::string>{ " ", " ", " ", "  ", "\t", " \t " }); }
    std::string factor(double& k)
    {
        const auto p = r.pick(std::vector<std::pair<std::string, double>>{ { "1", 1 }, { "1.0", 1 }, { "1e0", 1 }, { "'1.0'", 1 }, { "0.1e1", 1 }, { "1.00", 1 }, { "2", 2 }, { "-1", -1 }, { "0.5", 0.5 }, { "1.5", 1.5 }, { "0", 0 }, { "10", 10 }, { "1.0000000001", 1.0000000001 }, { "0.1", 0.1 } });
        k = p.second; return p.first;
    }
    std::string number_text(double& k) { k = (double)r.range(-20, 20); return std::to_string((int)k); }
    bool have_input() { return !m.v.empty() || !m.f.empty(); }
    std::string input(double& x, bool var_only = false)
    {
        std::vector<std::pair<std::string, double>> c(m.v.begin(), m.v.end());
        if (!var_only && r.chance(0.3)) c.assign(m.f.begin(), m.f.end());
        if (c.empty()) c.assign(m.v.begin(), m.v.end());
        if (c.empty()) c.assign(m.f.begin(), m.f.end());
        const auto& p = r.pick(c); x = p.second; return p.first;
    }
    std::string output() { return r.chance(0.2) ? r.pick(fils) : r.pick(vars); }
    void set(const std::string& n, double x) { if (n[0] == '$') m.v[n] = x; else m.f[n] = x; }
    std::string join(std::vector<std::string> t)
    {
        // an execution policy may stand anywhere after the command
        if (t[0] != "log" && t[0] != "copy" && t[0] != "rename" && t[0] != "remove" && r.chance(0.25)) { t.insert(t.begin() + 1 + (long)r.size(0, t.size() - 1), r.pick(std::vector<std::string>{ "seq", "par", "par_unseq", "unseq" })); event("policies"); }
        std::string s = r.chance(0.2) ? " " : "";
        for (std::size_t i = 0; i < t.size(); ++i) s += (i ? spaces() : "") + t[i];
        return s + (r.chance(0.4) ? " " : "");
    }
    std::string independent()
    {
        switch (r.range(0, 4))
        {
        case 0: if (!m.v.empty()) { double x; const std::string a = input(x, true); if (a[0] != '$') break; const std::string b = r.pick(vars); set(b, x); return join({ "copy", a, b }); } break;
        case 1: if (!m.v.empty()) { double x; const std::string a = input(x, true); if (a[0] != '$') break; const std::string b = r.pick(vars); if (a != b) { m.v.erase(a); m.v[b] = x; } return join({ "rename", a, b }); } break;
        case 2: if (m.v.size() > 2) { double x; const std::string a = input(x, true); m.v.erase(a); return join({ "remove", a }); } break;
        case 3: { m.log.push_back({ "boom", 0 }); return join({ "boom" }); }
        default: break;
        }
        std::string s = "log", t = std::to_string(r.range(0, 99));
        m.log.push_back({ "log " + t, 0 });
        return join({ s, t });
    }
    // one pipeline, executed on the model while it is written down
    std::string line()
    {
        std::vector<std::string> seg;
        while (r.chance(0.15)) seg.push_back(independent());
        const int n = r.chance(0.04) ? (int)r.range(7, 40) : (int)r.range(1, 6);
        if (n > 6) event("long_pipelines");
        double x = 0; bool piped = false;
        for (int i = 0; i < n; ++i)
        {
            const bool last = i + 1 == n;
            std::vector<std::string> t;
            double k = 0;
            if (!piped && (!have_input() || !seg.empty() || r.chance(0.5))) // after a command without result only a generator can start a chain
            {
                const std::string v = number_text(k); x = k;
                if (last) { const std::string o = output(); set(o, x); seg.push_back(join({ "gen", v, o })); event("single_commands"); return text(seg); }
                seg.push_back(join({ "gen", v })); piped = true; continue;
            }
            if (last && r.chance(0.35))
            {
                t = { "show" };
                if (!piped) { t.push_back(input(x)); }
                m.log.push_back({ "show", x });
                seg.push_back(join(t));
                event("terminators");
                while (r.chance(0.2)) seg.push_back(independent());
                return text(seg);
            }
            const std::string cmd = r.pick(std::vector<std::string>{ "multiply", "multiply", "dct2", "idct2", "dct2", "idct2", "inc", "neg", "sub" });
            std::vector<std::string> operands, rest;
            if (!piped) operands.push_back(input(x));
            if (cmd == "sub") { if (m.v.empty() && m.f.empty()) { operands.clear(); t = { "gen", number_text(k) }; x = k; } else { double y; operands.push_back(input(y)); x = x - y; } }
            else
            {
                if (cmd == "multiply") rest.push_back(factor(k)); else if (cmd == "inc") rest.push_back(number_text(k));
                x = fn(cmd, x, k);
            }
            if (t.empty()) { t = { cmd }; t.insert(t.end(), operands.begin(), operands.end()); }
            piped = true;
            if (last)
            {
                const std::string o = output();
                if (o[0] == '$' && r.chance(0.7)) { t.insert(t.end(), rest.begin(), rest.end()); seg.push_back(join(t)); seg.push_back(o); event("named_results"); }
                else { t.push_back(o); t.insert(t.end(), rest.begin(), rest.end()); seg.push_back(join(t)); event("explicit_results"); }
                set(o, x);
            }
            else { t.insert(t.end(), rest.begin(), rest.end()); seg.push_back(join(t)); }
        }
        return text(seg);
    }
    std::string text(const std::vector<std::string>& seg)
    {
        std::string s;
        for (std::size_t i = 0; i < seg.size(); ++i) { if (i) s += r.chance(0.05) ? "| |" : "|"; s += (r.chance(0.6) ? " " : "") + seg[i]; }
        event("pipeline_segments", seg.size());
        if (seg.size() > 1) event("pipelines");
        return s;
    }
};
void compare(Workspace& w, World& wd, const Model& m, const std::string& script)
{
    require(wd.log == m.log, "pipeline/trace", wd.log.size(), " outputs instead of ", m.log.size(), " or other ones: last got '", wd.log.empty() ? "" : wd.log.back().what + cat(" ", wd.log.back().v), "' want '", m.log.empty() ? "" : m.log.back().what + cat(" ", m.log.back().v), "' after ", script);
    require(alike(wd.files.f, m.f), "pipeline/files", "other files after ", script);
    for (auto& n : { "$a", "$b", "$c", "$out", "$img_2" })
    {
        auto it = m.v.find(n);
        const double* d = w.retrieve<double>(std::string_view(n).substr(1));
        require((d != nullptr) == (it != m.v.end()), "pipeline/variables", n, d ? " exists" : " is missing", " after ", script);
        if (d) require(near(*d, it->second), "pipeline/values", n, " is ", *d, " instead of ", it->second, " after ", script);
    }
}
VP_SECTION("pipelines", 3000, 60000)
{
    World wd; Workspace w; Model m;
    std::string script, last;
    const int n = (int)r.range(1, 6);
    bool ended = false;
    std::size_t prompts = 1, unknown = 0, errors = 0;
    for (const char* f : { "f1.bmp", "f2.bmp" }) if (r.chance(0.5)) { const double x = (double)r.range(-9, 9); m.f[f] = x; wd.files.f[f] = x; }
    std::string first;
    for (int k = 0; k < n; ++k)
    {
        std::string line;
        const double dice = r.unit();
        Model before = m;
        if (dice < 0.06) { line = r.pick(std::vector<std::string>{ "", "   ", "|", " | | ", "\t" }); event("blank_lines"); }
        else if (dice < 0.13)
        {
            // one unknown command: nothing of the line is executed
            Gen g{ r, m }; line = g.line();
            const std::string bad = r.pick(std::vector<std::string>{ "nosuch", "Multiply", "dct", "$a", "inc2" });
            line = r.chance(0.5) ? line + " | " + bad + " 1" : bad + " 1 | " + line;
            m = before; ++unknown; event("unknown_lines");
        }
        else if (dice < 0.19)
        {
            line = r.pick(std::vector<std::string>{ "inc $nothing $a 1", "multiply $nothing $b 2", "inc $missing 3 | $a", "show $nothing", "neg nofile $c", "gen 4" });
            ++errors; event("failing_lines");
        }
        else if (dice < 0.23)
        {
            line = r.pick(std::vector<std::string>{ "exit", "quit", " exit ", "quit\t", "exit now" });
            script += line + "\n"; if (first.empty()) first = line;
            ended = true; event("exits");
            Gen g{ r, before }; for (int q = 0; q < 2; ++q) script += g.line() + "\n"; // never reached
            break;
        }
        else { Gen g{ r, m }; line = g.line(); }
        errors += (std::size_t)std::count(m.log.begin(), m.log.end(), Entry{ "boom", 0 }) - (std::size_t)std::count(before.log.begin(), before.log.end(), Entry{ "boom", 0 });
        if (first.empty()) first = line;
        script += line + "\n"; ++prompts;
    }
    if (r.chance(0.2) && !script.empty() && !ended) script.pop_back(); // no newline at the end of the input
    std::string flat = script; for (auto& ch : flat) if (ch == '\n') ch = ';';
    c.describe(n, " lines ", flat.substr(0, 90));
    std::istringstream in(script);
    std::ostringstream os;
    struct Swap { std::streambuf* b; std::ios::iostate s; Swap(std::istream& i) : b(std::cin.rdbuf(i.rdbuf())) { std::cin.clear(); } ~Swap() { std::cin.rdbuf(b); std::cin.clear(); } } sw(in);
    run_interactive_mode(w, wd.reg, os);
    compare(w, wd, m, flat);
    auto occurrences = [&](const std::string& what) { std::size_t k = 0; for (std::size_t p = os.str().find(what); p != std::string::npos; p = os.str().find(what, p + 1)) ++k; return k; };
    require(occurrences("Unknown command") == unknown, "pipeline/unknown-report", occurrences("Unknown command"), " reports of unknown commands instead of ", unknown, " for ", flat);
    require(occurrences("Error executing") == errors, "pipeline/error-report", occurrences("Error executing"), " error reports instead of ", errors, " for ", flat);
    if (os.str().find("Peephole") != std::string::npos) event("optimized");
    event("handler_calls", wd.calls);
}
// the optimizer on other containers: same effect as running the commands one after the other
template<class L> void optimizer(Rng& r, Case& c, const char* tn)
{
    World a, b; Workspace wa, wb;
    const int n = (int)r.range(0, 7);
    L p; std::vector<QueuedCommand> naive; std::string d;
    for (const char* v : { "a", "b" }) { const double x = (double)r.range(-30, 30); wa.store(v, x); wb.store(v, x); }
    std::string prev = "$a";
    if (r.chance(0.15)) { prev = "f1.bmp"; a.files.f[prev] = b.files.f[prev] = (double)r.range(-9, 9); }
    for (int i = 0; i < n; ++i)
    {
        std::string out = i + 1 == n ? (r.chance(0.15) ? "f2.bmp" : "$out") : "$__pipe_" + std::to_string(i);
        const std::string cmd = r.pick(std::vector<std::string>{ "multiply", "dct2", "idct2", "dct2", "idct2", "inc", "neg", "copy", "sub" });
        QueuedCommand q{ cmd, { prev, out } };
        if (cmd == "copy" && (prev[0] != '$' || out[0] != '$')) q.name = "neg";
        if (cmd == "multiply") q.args.push_back(r.pick(std::vector<std::string>{ "1", "1.0", "2", "1.5" }));
        if (cmd == "inc") q.args.push_back("3");
        if (cmd == "sub") q.args = { prev, "$b", out };
        if (q.name != "copy" && r.chance(0.3)) q.args.insert(q.args.begin() + (long)r.size(0, q.args.size() - (q.name == "multiply" ? 1 : 0)), "par");
        d += q.name; for (auto& s : q.args) d += " " + s; d += "; ";
        p.push_back(q); naive.push_back(q); prev = out;
    }
    c.describe(tn, " ", d.substr(0, 110));
    std::ostringstream os;
    PeepholeOptimizer<L>::optimize(p, a.reg, os);
    auto run = [&](World& wd, Workspace& w, const auto& list) { for (auto& q : list) { std::vector<std::string_view> sv(q.args.begin(), q.args.end()); wd.reg.execute(w, q.name, sv, os); } };
    run(a, wa, p); run(b, wb, naive);
    require(os.str().find("Error") == std::string::npos, "optimizer/error", "a command failed: ", d);
    require(alike(a.files.f, b.files.f), "optimizer/files", "other files after ", d);
    for (auto& v : { "a", "b", "out" })
    {
        const double *x = wa.retrieve<double>(v), *y = wb.retrieve<double>(v);
        require((x != nullptr) == (y != nullptr) && (!x || near(*x, *y)), "optimizer/values", "$", v, " is ", x ? cat(*x) : "missing", " instead of ", y ? cat(*y) : "missing", " after ", d);
    }
    event("optimizations", naive.size() - (std::size_t)std::distance(p.begin(), p.end()));
}
VP_SECTION("optimizer_vector", 1500, 20000) { optimizer<std::vector<QueuedCommand>>(r, c, "vector"); }
VP_SECTION("optimizer_list", 700, 10000) { optimizer<std::list<QueuedCommand>>(r, c, "list"); }
VP_SECTION("optimizer_deque", 700, 10000) { optimizer<std::deque<QueuedCommand>>(r, c, "deque"); }
// policies among the arguments
VP_SECTION("policy_arguments", 400, 4000)
{
    std::vector<std::string> a(r.size(0, 7)), want; std::string first;
    for (auto& s : a) s = r.pick(std::vector<std::string>{ "seq", "par", "par_unseq", "unseq", "$a", "parallel", "PAR", "1.0", "", "sequence" });
    for (auto& s : a) if (is_policy(s)) { if (first.empty()) first = s; } else want.push_back(s);
    std::string d; for (auto& s : a) d += s + ","; c.describe(d);
    std::vector<std::string_view> sv(a.begin(), a.end());
    const auto got = args_filter<>(std::span<const std::string_view>(sv));
    require(std::vector<std::string>(got.begin(), got.end()) == want, "arguments/filter", "from ", d);
    require(std::string(extract_policy_string(sv)) == first, "arguments/policy", "'", extract_policy_string(sv), "' instead of '", first, "' from ", d);
    event("argument_lists");
}
}
