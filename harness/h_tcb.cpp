#define BLOCKED
#include "h_tc.cpp"
