// the plugin itself, linked in under another entry point
#define register_plugin_commands vp_plugin_add
#include "plugin_math_add.cpp"
