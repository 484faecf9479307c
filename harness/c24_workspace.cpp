// C24: the workspace may be used by several threads: every history of overlapping calls has a sequential
// explanation (linearizability against a map), and there is no data race. Runs under the race detector.
#include "vp.hpp"
#include "main.h"
using namespace vp;
static thread_local std::uint64_t jit = 1;
static void pause_a_little()
{
    jit = mix(jit);
    if (jit % 4 == 0) std::this_thread::yield();
    else if (jit % 4 == 1) for (volatile int i = 0; i < (int)(jit >> 8 & 255); ++i) {}
}
struct Token
{
    std::vector<int> id;    // on the heap: a dangling copy is noticed
    explicit Token(int i = 0) : id(9, i) {}
    Token(const Token& o) : id(o.id) { pause_a_little(); }
    Token(Token&& o) noexcept : id(std::move(o.id)) {}
    Token& operator=(const Token& o) { pause_a_little(); id = o.id; return *this; }
    Token& operator=(Token&& o) noexcept { id = std::move(o.id); return *this; }
    ~Token() { pause_a_little(); for (auto& x : id) x = -1; }
};
enum Kind { STORE, READ, HAS, REMOVE, RENAME, CLEAR, LIST };
static const char* KN[] = { "store", "retrieve_any", "retrieve", "remove", "rename", "clear", "list" };
struct Event { Kind k; int a, b, value; long result; std::uint64_t from, to; int thread; };
static const char* NAMES[] = { "alpha", "beta", "gamma" };
using State = std::array<int, 3>; // 0: absent
// the result the operation would have in the state, and the state after it
static long apply(const Event& e, State& s)
{
    switch (e.k)
    {
    case STORE: s[e.a] = e.value; return 0;
    case READ: return s[e.a];
    case HAS: return s[e.a] != 0;
    case REMOVE: { const bool was = s[e.a] != 0; s[e.a] = 0; return was; }
    case RENAME: { if (!s[e.a]) return 0; if (e.a != e.b) { s[e.b] = s[e.a]; s[e.a] = 0; } return 1; }
    case CLEAR: s = {}; return 0;
    default: return (s[0] != 0) | (s[1] != 0) << 1 | (s[2] != 0) << 2;
    }
}
static bool search(const std::vector<Event>& h, std::uint32_t done, const State& s, const State& final_state, std::set<std::pair<std::uint32_t, State>>& seen)
{
    if (done + 1 == (1u << h.size())) return s == final_state;
    if (!seen.insert({ done, s }).second) return false;
    std::uint64_t first_end = ~0ull;
    for (std::size_t i = 0; i < h.size(); ++i) if (!(done >> i & 1)) first_end = std::min(first_end, h[i].to);
    for (std::size_t i = 0; i < h.size(); ++i)
    {
        if ((done >> i & 1) || h[i].from > first_end) continue; // something else had ended before this began
        State n = s;
        if (apply(h[i], n) != h[i].result) continue;
        if (search(h, done | 1u << i, n, final_state, seen)) return true;
    }
    return false;
}
VP_SECTION("linearizable", 1500, 40000)
{
    const int threads = (int)r.range(2, 4), each = threads == 4 ? (int)r.range(2, 4) : (int)r.range(3, 6);
    Workspace ws;
    State init{};
    int fresh = 1;
    for (int k = 0; k < 3; ++k) if (r.chance(0.5)) { init[k] = fresh; ws.store(NAMES[k], Token(fresh++)); }
    std::vector<std::vector<Event>> plan(threads);
    const int favour = (int)r.range(0, 7);
    for (int t = 0; t < threads; ++t) for (int i = 0; i < each; ++i)
    {
        Kind k = favour < 7 && r.chance(0.4) ? (Kind)favour : (Kind)r.range(0, 6);
        if (k == CLEAR && r.chance(0.5)) k = STORE;
        plan[t].push_back({ k, (int)r.range(0, 2), (int)r.range(0, 2), k == STORE ? fresh++ : 0, 0, 0, 0, t });
    }
    std::string d; for (auto& p : plan) { for (auto& e : p) d += cat(KN[e.k], e.a, e.k == RENAME ? cat(">", e.b) : std::string(), " "); d += "| "; }
    const std::uint64_t sched = r.next();
    c.describe(d, "#", sched % 100000);
    std::atomic<std::uint64_t> clock{ 1 };
    std::atomic<int> ready{ 0 };
    std::atomic<bool> torn{ false };
    auto run = [&](int t) {
        jit = mix(sched + (std::uint64_t)t);
        ready.fetch_add(1, std::memory_order_relaxed);
        while (ready.load(std::memory_order_relaxed) < threads) std::this_thread::yield();
        for (auto& e : plan[t])
        {
            pause_a_little();
            // relaxed: the order of these is real time, but the race detector must not take it for synchronisation
            e.from = clock.fetch_add(1, std::memory_order_relaxed);
            switch (e.k)
            {
            case STORE: ws.store(NAMES[e.a], Token(e.value)); break;
            case READ:
            {
                const auto got = ws.retrieve_any(NAMES[e.a]);
                if (got)
                {
                    const auto* p = std::any_cast<Token>(&*got);
                    if (!p || p->id.size() != 9) torn.store(true, std::memory_order_relaxed);
                    else { e.result = p->id[0]; for (int x : p->id) if (x != p->id[0]) torn.store(true, std::memory_order_relaxed); }
                }
                break;
            }
            case HAS: e.result = ws.retrieve<Token>(NAMES[e.a]) != nullptr; break;
            case REMOVE: e.result = ws.remove(NAMES[e.a]); break;
            case RENAME: e.result = ws.rename(NAMES[e.a], NAMES[e.b]); break;
            case CLEAR: ws.clear(); break;
            case LIST:
            {
                std::ostringstream os; ws.list_variables(os);
                for (int k = 0; k < 3; ++k) if (os.str().find(std::string("$") + NAMES[k] + " ") != std::string::npos) e.result |= 1l << k;
                break;
            }
            }
            e.to = clock.fetch_add(1, std::memory_order_relaxed);
        }
    };
    std::vector<std::thread> th;
    for (int t = 1; t < threads; ++t) th.emplace_back(run, t);
    run(0);
    for (auto& t : th) t.join();
    require(!torn.load(), "workspace/torn", "a value that was never stored was read");
    State fin{};
    for (int k = 0; k < 3; ++k) if (const auto* p = ws.retrieve<Token>(NAMES[k])) fin[k] = p->id[0];
    std::vector<Event> h; for (auto& p : plan) h.insert(h.end(), p.begin(), p.end());
    std::size_t overlaps = 0;
    for (auto& x : h) for (auto& y : h) if (x.thread < y.thread && x.from < y.to && y.from < x.to) ++overlaps;
    std::set<std::pair<std::uint32_t, State>> seen;
    if (!search(h, 0, init, fin, seen))
    {
        std::string t; std::sort(h.begin(), h.end(), [](auto& p, auto& q) { return p.from < q.from; });
        for (auto& e : h) t += cat("[", e.from, "-", e.to, "] t", e.thread, " ", KN[e.k], " ", NAMES[e.a], e.k == RENAME ? cat(">", NAMES[e.b]) : e.k == STORE ? cat("=", e.value) : std::string(), " -> ", e.result, "; ");
        fail("workspace/linearizable", cat("no sequential order explains: ", t, "finally ", fin[0], " ", fin[1], " ", fin[2]));
    }
    event("histories"); event("operations", h.size()); event("overlapping_pairs", overlaps); event("states_searched", seen.size());
    for (auto& e : h) event(cat("op_", KN[e.k]));
    if (!overlaps) c.trivial = true;
}
