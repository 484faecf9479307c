#include "c18_recursive.hpp"
VP_SECTION("vector1", 700, 15000) { nest<std::vector<int>, 1>(r, c, "vector"); }
VP_SECTION("vector2", 700, 15000) { nest<std::vector<std::vector<int>>, 2>(r, c, "vector2"); }
VP_SECTION("vector3", 400, 10000) { nest<std::vector<std::vector<std::vector<int>>>, 3>(r, c, "vector3"); }
