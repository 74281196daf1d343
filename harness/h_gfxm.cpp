#define GFX_TIMSORT_USE_STD_MOVE 1
#include "h_gfx.cpp"
