// C27: every arithmetic value is written as a number of JSON, and an integer as itself.
#include "harness.h"
#define NUMBER(name, T, type) \
    H(c27_##name) \
    { \
        T x; \
        nd_number(&x, 1, type); \
        json::value v(x); \
        if (!is_finite(1)) { \
            std::string s = v.to_string(); \
            must(json_number(&s), "a " type " that is not finite is written as a number"); \
            return; \
        } \
        must(v.is_number(), "a " type " is a number"); \
        std::string s = v.to_string(); \
        must(json_number(&s), "a " type " is written as a number of JSON"); \
    } \
    H(c27_##name##_assigned) \
    { \
        T x; \
        nd_number(&x, 1, type); \
        if (!is_finite(1)) return; \
        json::value v; \
        v = x; \
        must(v.is_number(), "a " type " that is assigned is a number"); \
        std::string s = v.dumps(); \
        must(json_number(&s), "a " type " that is assigned is written as a number of JSON"); \
    }
#define INTEGER(name, T, type) \
    NUMBER(name, T, type) \
    H(c27_##name##_back) \
    { \
        T x; \
        nd_number(&x, 1, type); \
        json::value v(x); \
        T y = v.as<T>(); \
        must(is_number(&y, 1, type), "a " type " is read back as it was"); \
        json::array a { x }; \
        T z = static_cast<T>(a[0]); \
        must(is_number(&z, 1, type), "a " type " in an array is read back as it was"); \
        json::object o { { "k", x } }; \
        T w = o.at("k").as<T>(); \
        must(is_number(&w, 1, type), "a " type " in an object is read back as it was"); \
    }
NUMBER(short, short, "short")
NUMBER(ushort, unsigned short, "unsigned short")
INTEGER(int, int, "int")
INTEGER(uint, unsigned, "unsigned int")
INTEGER(long, long, "long")
INTEGER(ulong, unsigned long, "unsigned long")
INTEGER(llong, long long, "long long")
INTEGER(ullong, unsigned long long, "unsigned long long")
NUMBER(float, float, "float")
NUMBER(double, double, "double")
NUMBER(ldouble, long double, "long double")
