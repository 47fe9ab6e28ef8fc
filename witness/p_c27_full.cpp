// C27 with full precision.
#define MEOJSON_KEEP_FLOATING_PRECISION
#include "p_c27.cpp"
