#pragma once
// C18: algorithms over nested containers against plain nested loops.
#include "vp.hpp"
#include "basic_functions.h"
#include <list>
#include <deque>
#include <set>
#include <execution>
using namespace vp;
namespace td = TinyDIP;
using ld = long double;

template<class F> void with_all(F&& f) { f(std::execution::seq); f(std::execution::par); f(std::execution::par_unseq); f(std::execution::unseq); }
// nested container of C<C<..T>> with ragged, possibly empty, inner ranges
template<class N> struct Make;
template<class T> concept nested = requires(T t) { t.begin(); };
template<class X> void fill(Rng& r, X& x, std::size_t top, bool allow_empty, std::size_t outer = 0, int span = 6)
{
    if constexpr (nested<X>)
    {
        const std::size_t n = outer ? outer : r.size(allow_empty ? 0 : 1, top);
        for (std::size_t i = 0; i < n; ++i) { typename X::value_type e{}; fill(r, e, top, allow_empty, 0, span); x.insert(x.end(), e); }
    }
    else x = (X)r.range(-span, span);
}
template<class X, class F> void walk(const X& x, F&& f) { if constexpr (nested<X>) for (const auto& e : x) walk(e, f); else f(x); }
template<class X, class F> auto mapped(const X& x, F&& f)
{
    X o = x;
    auto go = [&](auto&& self, auto& e) -> void { if constexpr (nested<std::remove_cvref_t<decltype(e)>>) for (auto& q : e) self(self, q); else e = f(e); };
    go(go, o);
    return o;
}
template<class X, class P> X kept(const X& x, P&& p)
{
    X o{};
    for (const auto& e : x)
        if constexpr (nested<typename X::value_type>) o.insert(o.end(), kept(e, p));
        else if (p(e)) o.insert(o.end(), e);
    return o;
}
template<class X> std::string str(const X& x) { std::string s; if constexpr (nested<X>) { s = "["; for (const auto& e : x) s += str(e) + " "; return s + "]"; } else return cat(x); }

template<class X, std::size_t L> void nest(Rng& r, Case& c, const char* tn)
{
    X x{};
    const bool empty_ok = r.chance(0.4);
    // now and then an outer range much longer than the others (with short inner ones), or large values
    const std::size_t outer = r.chance(0.02) ? r.size(40, 300) : 0;
    if (outer) event("long_ranges");
    fill(r, x, outer ? 2 : 5, empty_ok, outer, r.chance(0.05) ? 1000 : 6);
    const X before = x;
    c.describe(tn, " ", str(x));
    std::vector<int> flat;
    walk(x, [&](int v) { flat.push_back(v); });
    c.trivial = flat.empty();
    const int t = (int)r.range(-6, 6);
    auto p = [t](const int& v) { return v > t; };
    std::size_t np = 0, nt = 0;
    for (int v : flat) { np += v > t; nt += v == t; }
    const std::size_t N = flat.size();
    require(td::recursive_all_of<L>(x, p) == (np == N), "recursive_all_of", np, " of ", N);
    require(td::recursive_any_of<L>(x, p) == (np > 0), "recursive_any_of", np, " of ", N);
    require(td::recursive_none_of<L>(x, p) == (np == 0), "recursive_none_of", np, " of ", N);
    require(td::recursive_find_if<L>(x, p) == (np > 0), "recursive_find_if", np, " of ", N);
    require(td::recursive_find<L>(x, t) == (nt > 0), "recursive_find", nt, " of ", N);
    require(td::recursive_find<L>(std::execution::par, x, t) == (nt > 0), "recursive_find-par", nt, " of ", N);
    auto neg = [](const int& v) { return -v; };
    require(td::recursive_find<L>(x, -t, neg) == (nt > 0), "recursive_find-projection", nt, " of ", N);
    require(td::recursive_all_of<L>(x, [t](int v) { return v < -t; }, neg) == (np == N), "recursive_all_of-projection", np, " of ", N);
    require((std::size_t)td::recursive_count<L>(x, t) == nt, "recursive_count", "got ", td::recursive_count<L>(x, t), " want ", nt);
    require((std::size_t)td::recursive_size(x) == N, "recursive_size", "got ", td::recursive_size(x), " want ", N);
    with_all([&](auto&& pol) { require((std::size_t)td::recursive_count_if(pol, x, p) == np, "recursive_count_if-policy", "got ", td::recursive_count_if(pol, x, p), " want ", np); });
    require((std::size_t)td::recursive_count<std::execution::parallel_policy, L>(std::execution::par, x, t) == nt, "recursive_count-policy", "want ", nt);
    event("queries", 17);
    // folds: order-sensitive where the operation is sequential
    long long fold = 7;
    for (int v : flat) fold = (fold * 31 + v) % 1000003;
    require(td::recursive_reduce<L>(x, 7LL, [](long long a, int v) { return (a * 31 + v) % 1000003; }) == fold, "recursive_reduce", "want ", fold);
    long long back = 7;
    for (auto i = flat.rbegin(); i != flat.rend(); ++i) back = (back * 31 + *i) % 1000003;
    require(td::recursive_fold_right_all(x, 7LL, [](int v, long long a) { return (a * 31 + v) % 1000003; }) == back, "recursive_fold_right_all", "want ", back);
    std::vector<int> seen;
    td::recursive_reverse_foreach_all(x, [&](auto& v) { seen.push_back(v); });
    require(seen == std::vector<int>(flat.rbegin(), flat.rend()), "recursive_reverse_foreach_all", "wrong visit order");
    seen.clear();
    td::recursive_for_each<L>([&](auto&& v) { seen.push_back(v); }, x);
    require(seen == flat, "recursive_for_each", "wrong visit order");
    std::atomic<long long> visits{ 0 }, total{ 0 };
    td::recursive_for_each<L>(std::execution::par, [&](auto&& v) { ++visits; total += v * 1000 + 1; }, x);
    long long want = 0; for (int v : flat) want += v * 1000 + 1;
    require(visits == (long long)N && total == want, "recursive_for_each-par", "visited ", visits.load(), " of ", N);
    long long sq = 5; for (int v : flat) sq += (long long)v * v;
    auto sqf = [](const int& v) { return (long long)v * v; };
    require(td::recursive_transform_reduce(x, 5LL, sqf, std::plus<long long>()) == sq, "recursive_transform_reduce", "want ", sq);
    require(td::recursive_transform_reduce(std::execution::par, x, 5LL, sqf, std::plus<long long>()) == sq, "recursive_transform_reduce-par", "want ", sq);
    require(td::recursive_transform_reduce<L>(x, 5LL, sqf) == sq, "recursive_transform_reduce-level", "want ", sq);
    require(td::recursive_transform_reduce<L>(std::execution::par, x, 5LL, sqf) == sq, "recursive_transform_reduce-level-par", "want ", sq);
    event("folds", 8);
    // structure-preserving copies
    auto f = [](const int& v) { return v * 3 + 1; };
    require(td::recursive_transform<L>(f, x) == mapped(x, f), "recursive_transform", "got ", str(td::recursive_transform<L>(f, x)));
    require(td::recursive_transform<L>([](const int& a, const int& b) { return a * 10 + b; }, x, mapped(x, f)) == mapped(x, [](int v) { return v * 10 + v * 3 + 1; }), "recursive_transform-binary", "wrong");
    if constexpr (requires { x.resize(1); })
    {
        with_all([&](auto&& pol) { require(td::recursive_transform<L>(pol, f, x) == mapped(x, f), "recursive_transform-policy", "got ", str(td::recursive_transform<L>(pol, f, x))); });
    }
    require(td::recursive_replace_copy_if<L>(x, p, 99) == mapped(x, [&](int v) { return p(v) ? 99 : v; }), "recursive_replace_copy_if", "wrong");
    require(td::recursive_remove_copy_if<L>(x, p) == kept(x, [&](int v) { return !p(v); }), "recursive_remove_copy_if", "wrong");
    require(td::recursive_remove_copy<L>(x, t) == kept(x, [&](int v) { return v != t; }), "recursive_remove_copy", "wrong");
    require(td::recursive_copy_if<L>(x, p) == kept(x, p), "recursive_copy_if-level", "wrong");
    with_all([&](auto&& pol)
    {
        require(td::recursive_remove_copy_if<L>(pol, x, p) == kept(x, [&](int v) { return !p(v); }), "recursive_remove_copy_if-policy", "wrong");
        require(td::recursive_remove_copy<L>(pol, x, t) == kept(x, [&](int v) { return v != t; }), "recursive_remove_copy-policy", "wrong");
    });
    event("copies", 6);
    if (!flat.empty())
    {
        const auto [lo, hi] = std::minmax_element(flat.begin(), flat.end());
        if constexpr (!std::is_same_v<X, std::vector<std::list<int>>> && requires { x.at(0); }) if (!empty_ok)
        {
            require(td::recursive_max(x) == *hi, "recursive_max", "got ", td::recursive_max(x), " want ", *hi);
            require(td::recursive_min(x) == *lo, "recursive_min", "got ", td::recursive_min(x), " want ", *lo);
            require(td::recursive_max(x, std::ranges::greater{}) == *lo, "recursive_max-order", "got ", td::recursive_max(x, std::ranges::greater{}));
            event("extrema", 3);
        }
    }
    std::vector<int> out;
    td::recursive_flatten<L>(x, out);
    require(out == flat, "recursive_flatten", "got ", str(out));
    if constexpr (L > 1) if constexpr (requires { td::recursive_flatten_view<L>(x); })
    {
        std::vector<int> view;
        for (auto&& v : td::recursive_flatten_view<L>(x)) view.push_back(v);
        require(view == flat, "recursive_flatten_view", "got ", str(view));
        if (!flat.empty())
        {
            const auto mm = td::recursive_minmax<L>(x);
            const auto [lo, hi] = std::minmax_element(flat.begin(), flat.end());
            require(mm.min == *lo && mm.max == *hi, "recursive_minmax", "got ", mm.min, ",", mm.max, " want ", *lo, ",", *hi);
        }
        event("flat_views");
    }
    {
        std::ostringstream sink; auto* o = std::cout.rdbuf(sink.rdbuf());
        td::recursive_print(x);
        std::cout.rdbuf(o);
        std::vector<int> printed; std::istringstream in(sink.str());
        for (std::string l; std::getline(in, l);) if (l.find("Level") == std::string::npos) printed.push_back(std::stoi(l));
        require(printed == flat, "recursive_print", "printed ", str(printed));
    }
    require(x == before, "input-modified", "the input changed");
}

