#define C04_STR
#include "c04_pack.cpp"
