#include "c06_channels.hpp"
VP_SECTION("channels.mc3", 120, 2500) { channels<MultiChannel<double, 3>>(r, c, "MultiChannel3"); }
