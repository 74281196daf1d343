#define SX_WIDE
#include "h_grbk.cpp"
