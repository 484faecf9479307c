// C07: what an operation returns does not depend on the execution policy, the number of threads or the
// schedule. Runs on the shipping parallel runtimes (TBB, libgomp).
#define VP_WITH_MAIN
#include "par/ops.hpp"
#include "par/main.hpp"
#include <omp.h>
#include <tbb/global_control.h>
static void one(const Op& o, std::uint64_t seed, Rng& r, Case& c)
{
    Quiet q;
    Dig base;
    {
        tbb::global_control g(tbb::global_control::max_allowed_parallelism, 1); omp_set_num_threads(1);
        Rng in(seed); o.run(0, in, base);
    }
    require(!base.v.empty(), "schedule/empty", "no result");
    event(cat("op_", o.name));
    const int counts[] = { 1, 2, 3, 5, 8, 13 };
    for (int k = 0; k < 4; ++k)
    {
        const int n = counts[r.next() % 6], w = o.policy ? k : 0;
        tbb::global_control g(tbb::global_control::max_allowed_parallelism, (std::size_t)n); omp_set_num_threads(n);
        Dig d; Rng in(seed); o.run(w, in, d);
        compare(base, d, o.name, cat(o.policy ? policy_name(w) : "plain", " on ", n, " threads"));
        event(cat("threads_", n)); if (o.policy) event(cat("policy_", policy_name(w)));
    }
    omp_set_num_threads(3);
}
VP_SECTION("policies", 2500, 60000)
{
    const Op& o = ops()[r.next() % ops().size()];
    const std::uint64_t seed = r.next();
    c.describe(o.name, " input ", seed);
    one(o, seed, r, c);
}
VP_SECTION("callers", 600, 15000)
{
    const std::size_t n = r.size(2, 5);
    std::vector<const Op*> o; std::vector<std::uint64_t> seed;
    for (std::size_t i = 0; i < n; ++i) { o.push_back(i && r.chance(0.7) ? o[0] : &ops()[r.next() % ops().size()]); seed.push_back(r.next()); }
    std::string names; for (auto* p : o) names += std::string(p->name) + " ";
    c.describe(names, "inputs from ", seed[0]);
    Quiet q;
    std::vector<Dig> d(n), alone(n);
    std::vector<std::string> err(n);
    std::atomic<int> ready{ 0 };
    auto go = [&](std::size_t i) { ++ready; while (ready.load() < (int)n) std::this_thread::yield(); try { Rng in(seed[i]); o[i]->run((int)(seed[i] % 4), in, d[i]); } catch (const std::exception& e) { err[i] = e.what(); } };
    std::vector<std::thread> t;
    for (std::size_t i = 1; i < n; ++i) t.emplace_back([&, i] { go(i); });
    go(0);
    for (auto& x : t) x.join();
    for (std::size_t i = 0; i < n; ++i)
    {
        require(err[i].empty(), "schedule/callers-error", o[i]->name, " failed: ", err[i]);
        Rng in(seed[i]); o[i]->run(0, in, alone[i]);
        compare(alone[i], d[i], o[i]->name, "called alongside others");
    }
    event("concurrent_calls", n);
}
