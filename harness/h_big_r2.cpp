#define SX_OUTER2
#include "h_big_r.cpp"
