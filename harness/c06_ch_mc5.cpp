#define VP_NO_MAIN
#include "img.hpp"
#include "image_operations.h"
using namespace vp;
namespace td = TinyDIP;
template<class T> static void mc(Rng& r, Case& c, const char* n)
{
    const Sz s = rnd_size2(r, 10);
    c.describe(n, " ", shows(s)); c.trivial = product(s) < 2;
    auto a = rnd_image<T>(r, s), b = rnd_image<T>(r, s);
    const auto g = snap(td::difference(a, b)), p = snap(td::add(a, b)), m = snap(td::subtract(a, b)), A = snap(a), B = snap(b);
    for (std::size_t i = 0; i < A.d.size(); ++i) for (std::size_t k = 0; k < chan<T>::n; ++k)
    {
        require(g.d[i].channels[k] == (A.d[i].channels[k] > B.d[i].channels[k] ? A.d[i].channels[k] - B.d[i].channels[k] : B.d[i].channels[k] - A.d[i].channels[k]), "difference-mc", "channel ", k, " of element ", i);
        require(p.d[i].channels[k] == A.d[i].channels[k] + B.d[i].channels[k], "add-mc", "channel ", k, " of element ", i);
        require(m.d[i].channels[k] == A.d[i].channels[k] - B.d[i].channels[k], "subtract-mc", "channel ", k, " of element ", i);
    }
    event("channel_values", A.d.size() * chan<T>::n);
}
VP_SECTION("channels.mc5", 150, 3000) { mc<MultiChannel<double, 5>>(r, c, "mc5"); }
VP_SECTION("channels.mc2", 150, 3000) { mc<MultiChannel<double, 2>>(r, c, "mc2"); }
VP_SECTION("channels.mc1", 100, 2000) { mc<MultiChannel<float, 1>>(r, c, "mc1"); }
