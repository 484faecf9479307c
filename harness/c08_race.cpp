// C08: operations that work in parallel inside, and operations called from several threads at once, are free
// of data races and do not disturb each other. Runs under the race detector on the stand-in back ends.
#define VP_WITH_MAIN
#include "par/ops.hpp"
#include "par/main.hpp"
static void observe(std::uint64_t r0, std::uint64_t t0, std::uint64_t c0)
{
    auto& s = vp_par::stats();
    event("parallel_regions", s.regions.load() - r0); event("threads_started", s.threads.load() - t0); event("chunks_dealt", s.chunks.load() - c0);
}
VP_SECTION("solo", 900, 20000)
{
    const Op& o = ops()[r.next() % ops().size()];
    const std::uint64_t seed = r.next(), sched = r.next() >> 8;
    c.describe(o.name, " input ", seed, " schedule ", sched);
    auto& s = vp_par::stats(); s.seed = sched;
    const std::uint64_t r0 = s.regions, t0 = s.threads, c0 = s.chunks;
    Quiet q;
    Dig d; Rng in(seed); o.run(1, in, d);
    require(!d.v.empty(), "race/empty", "no result");
    event(cat("op_", o.name)); event("results", d.v.size());
    if (s.regions.load() == r0) event("without_parallel_region");
    observe(r0, t0, c0);
}
VP_SECTION("callers", 500, 12000)
{
    // two or three callers at once, each with an operation and an input of its own (often the same operation)
    const std::size_t n = r.size(2, 3);
    std::vector<const Op*> o; std::vector<std::uint64_t> seed;
    for (std::size_t i = 0; i < n; ++i) { o.push_back(i && r.chance(0.7) ? o[0] : &ops()[r.next() % ops().size()]); seed.push_back(r.next()); }
    const std::uint64_t sched = r.next() >> 8;
    std::string names; for (auto* p : o) names += std::string(p->name) + " ";
    c.describe(names, "inputs from ", seed[0], " schedule ", sched);
    auto& s = vp_par::stats(); s.seed = sched;
    const std::uint64_t r0 = s.regions, t0 = s.threads, c0 = s.chunks;
    Quiet q;
    std::vector<Dig> d(n), alone(n);
    std::vector<std::string> err(n);
    auto go = [&](std::size_t i, Dig& out) { vp_par::depth = 1; try { Rng in(seed[i]); o[i]->run(1, in, out); } catch (const std::exception& e) { err[i] = e.what(); } vp_par::depth = 0; };
    std::vector<std::thread> t;
    for (std::size_t i = 1; i < n; ++i) t.emplace_back([&, i] { go(i, d[i]); });
    go(0, d[0]);
    for (auto& x : t) x.join();
    for (std::size_t i = 0; i < n; ++i)
    {
        require(err[i].empty(), "race/callers-error", o[i]->name, " failed: ", err[i]);
        Rng in(seed[i]); o[i]->run(1, in, alone[i]);
        compare(alone[i], d[i], o[i]->name, "called alongside others");
    }
    event("concurrent_calls", n);
    observe(r0, t0, c0);
}
