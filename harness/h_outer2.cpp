#define SX_OUTER2
#include "h_outer.cpp"
