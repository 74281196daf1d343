#define MALFORMED
#include "h_io.cpp"
