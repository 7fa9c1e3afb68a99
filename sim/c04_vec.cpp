#define C04_VEC
#include "c04_pack.cpp"
