#define VP_NO_MAIN
#include "c18_recursive.hpp"
VP_SECTION("deque2", 300, 8000) { nest<std::deque<std::deque<int>>, 2>(r, c, "deque2"); }
VP_SECTION("vector_of_list", 300, 8000) { nest<std::vector<std::list<int>>, 2>(r, c, "vector of list"); }
VP_SECTION("list2", 300, 8000) { nest<std::list<std::list<int>>, 2>(r, c, "list2"); }
