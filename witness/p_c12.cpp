// Numbers read as every arithmetic type (C12); never executed.
#include "harness.h"
#define IS(name, T)                                                                                                              \
    H(c12_is_##name)                                                                                                             \
    {                                                                                                                            \
        Value v(1);                                                                                                              \
        bool yes = false;                                                                                                        \
        Outcome o = attempt([&] { yes = std::as_const(*v).is<T>(); });                                                           \
        must(o == DONE, "is<T> does not throw");                                                                                 \
        must(yes == (v.is(NUM) && readable(1, #T)), "is<T> is true exactly for numbers whose whole text is a T");                \
        must(v.same(), "is<T> leaves the value as it was");                                                                      \
    }
#define BOTH(name, T)                                                                                                            \
    IS(name, T)                                                                                                                  \
    H(c12_agree_##name)                                                                                                          \
    {                                                                                                                            \
        Value v(1);                                                                                                              \
        T x {}, y {}, z {};                                                                                                      \
        bool yes = v->is<T>();                                                                                                   \
        Outcome a = attempt([&] { x = std::as_const(*v).as<T>(); });                                                             \
        Outcome b = attempt([&] { y = static_cast<T>(std::as_const(*v)); });                                                     \
        must(a != OTHEREX && b != OTHEREX, "a conversion to a number fails with json::exception only");                          \
        must((a == DONE) == yes, "is<T> is true exactly if as<T> succeeds");                                                     \
        must((b == DONE) == yes, "is<T> is true exactly if the cast to T succeeds");                                             \
        Outcome c = attempt([&] { z = std::move(*v).as<T>(); });                                                                 \
        must((c == DONE) == yes && c != OTHEREX, "is<T> is true exactly if as<T> of an rvalue succeeds");                        \
        if (yes) must(is_number(&x, 1, #T) && is_number(&y, 1, #T) && is_number(&z, 1, #T), "the result is the value of the whole text"); \
    }                                                                                                                            \
    H(c12_get_##name)                                                                                                            \
    {                                                                                                                            \
        Value v(1), w(2, ARR), u(3, OBJ);                                                                                        \
        T d {};                                                                                                                  \
        Outcome o = attempt([&] {                                                                                                \
            json::value c;                                                                                                       \
            c["k"] = *v;                                                                                                         \
            bool yes = v->is<T>();                                                                                               \
            auto r = std::as_const(c).find<T>("k");                                                                              \
            must(r.has_value() == yes, "find<T> finds exactly the members that are a T");                                        \
            if (yes) must(is_number(&*r, 1, #T), "find<T> gives the value of the whole text");                                   \
        });                                                                                                                      \
        must(o == DONE, "find<T> does not throw");                                                                               \
    }
IS(char, char)
IS(signed_char, signed char)
IS(unsigned_char, unsigned char)
IS(short, short)
IS(unsigned_short, unsigned short)
BOTH(int, int)
BOTH(unsigned, unsigned int)
BOTH(long, long)
BOTH(unsigned_long, unsigned long)
BOTH(long_long, long long)
BOTH(unsigned_long_long, unsigned long long)
BOTH(float, float)
BOTH(double, double)
BOTH(long_double, long double)
enum class E1 : unsigned char { a, b };
enum class E2 : long { a, b };
H(c12_is_enum_number)
{
    Value v(1, ANY & ~STR);
    bool x = v->is<E1>(), y = v->is<E2>();
    must(x == (v.is(NUM) && readable(1, "unsigned char")), "is<enum> is true exactly for numbers of the underlying type");
    must(y == (v.is(NUM) && readable(1, "long")), "is<enum> is true exactly for numbers of the underlying type");
}
