#include "c06_channels.hpp"
VP_SECTION("channels.rgb", 120, 2500) { channels<RGB>(r, c, "RGB"); }
