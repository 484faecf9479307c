// the program itself, with its entry point under another name
#define main tinydip_main
#include "main.cpp"
