// Equality of unknown values (C26); never executed.
#include "harness.h"
#define NEVER(x) must((x) == DONE, "a comparison never throws")
H(c26_value)
{
    Value a(1), b(2);
    NEVER(attempt([&] {
        bool expected = kind_of(1) == kind_of(2) && equal_content(1, 2);
        must((std::as_const(*a) == std::as_const(*b)) == expected, "== is true exactly for values of the same type and content");
        must((std::as_const(*a) != std::as_const(*b)) != expected, "!= is the negation of ==");
    }));
    must(a.same() && b.same(), "a comparison changes nothing");
}
H(c26_value_swapped)
{
    Value a(1), b(2);
    NEVER(attempt([&] {
        bool ab = *a == *b, ba = *b == *a;
        must(ab == ba, "== is symmetric");
    }));
}
H(c26_value_self)
{
    Value a(1);
    NEVER(attempt([&] {
        json::value c(*a);
        must(*a == *a && !(*a != *a), "a value equals itself");
        must(*a == c && !(*a != c), "a value equals its copy");
    }));
}
H(c26_array)
{
    Array a(1), b(2);
    NEVER(attempt([&] {
        bool expected = equal_content(1, 2);
        must((std::as_const(*a) == std::as_const(*b)) == expected, "== of arrays compares the elements");
        must((std::as_const(*a) != std::as_const(*b)) != expected, "!= is the negation of ==");
    }));
    must(a.same() && b.same(), "a comparison changes nothing");
}
H(c26_object)
{
    Object a(1), b(2);
    NEVER(attempt([&] {
        bool expected = equal_content(1, 2);
        must((std::as_const(*a) == std::as_const(*b)) == expected, "== of objects compares the members");
        must((std::as_const(*a) != std::as_const(*b)) != expected, "!= is the negation of ==");
    }));
    must(a.same() && b.same(), "a comparison changes nothing");
}
