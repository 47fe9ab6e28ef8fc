// C28: with full precision the text of a floating point number reads back as that number.
#define MEOJSON_KEEP_FLOATING_PRECISION
#include "harness.h"
#define NUMBER(name, T, type) \
    H(c28_##name) \
    { \
        T x; \
        nd_number(&x, 1, type); \
        if (!is_finite(1)) return; \
        json::value v(x); \
        must(v.is_number(), "a " type " is a number"); \
        T y = v.as<T>(); \
        must(is_number(&y, 1, type), "a " type " is read back as it was"); \
    } \
    H(c28_##name##_assigned) \
    { \
        T x; \
        nd_number(&x, 1, type); \
        if (!is_finite(1)) return; \
        json::value v; \
        v = x; \
        json::value w = v; \
        T y = static_cast<T>(w); \
        must(is_number(&y, 1, type), "a " type " that was assigned is read back as it was"); \
    } \
    H(c28_##name##_nested) \
    { \
        T x; \
        nd_number(&x, 1, type); \
        if (!is_finite(1)) return; \
        json::array v { x }; \
        T y = v.at(0).as<T>(); \
        must(is_number(&y, 1, type), "a " type " in an array is read back as it was"); \
    }
NUMBER(float, float, "float")
NUMBER(double, double, "double")
NUMBER(ldouble, long double, "long double")
