// the plugin itself, linked in under another entry point
#define register_plugin_commands vp_plugin_math
#include "plugin_math.cpp"
