#include "c06_channels.hpp"
VP_SECTION("channels.hsv", 120, 2500) { channels<HSV>(r, c, "HSV"); }
