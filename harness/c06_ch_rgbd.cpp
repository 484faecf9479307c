#include "c06_channels.hpp"
VP_SECTION("channels.rgbd", 120, 2500) { channels<RGB_DOUBLE>(r, c, "RGB_DOUBLE"); }
