// Concatenation of arrays and merging of objects (C15); never executed.
#include "harness.h"
#define DONE_(x) must((x) == DONE, "putting containers together does not throw")
H(c15_plus_copy_copy)
{
    Array a(1), b(2);
    DONE_(attempt([&] {
        json::array r = std::as_const(*a) + std::as_const(*b);
        must(is_concat(&r, 1, 2), "array + array has the elements of both in order");
        must(a.same() && b.same(), "operands that are not rvalues stay as they were");
        must(apart(&r, &*a) && apart(&r, &*b), "the result shares nothing with the operands");
    }));
}
H(c15_plus_copy_move)
{
    Array a(1), b(2);
    DONE_(attempt([&] {
        json::array r = std::as_const(*a) + std::move(*b);
        must(is_concat(&r, 1, 2), "array + array has the elements of both in order");
        must(a.same(), "operands that are not rvalues stay as they were");
        must(apart(&r, &*a) && apart(&r, &*b), "the result shares nothing with the operands");
        must(consistent(&*b), "an operand that was moved is still an array");
    }));
}
H(c15_plus_move_copy)
{
    Array a(1), b(2);
    DONE_(attempt([&] {
        json::array r = std::move(*a) + std::as_const(*b);
        must(is_concat(&r, 1, 2), "array + array has the elements of both in order");
        must(b.same(), "operands that are not rvalues stay as they were");
        must(apart(&r, &*a) && apart(&r, &*b), "the result shares nothing with the operands");
        must(consistent(&*a), "an operand that was moved is still an array");
    }));
}
H(c15_plus_move_move)
{
    Array a(1), b(2);
    DONE_(attempt([&] {
        json::array r = std::move(*a) + std::move(*b);
        must(is_concat(&r, 1, 2), "array + array has the elements of both in order");
        must(apart(&r, &*a) && apart(&r, &*b), "the result shares nothing with the operands");
        must(consistent(&*a) && consistent(&*b), "an operand that was moved is still an array");
    }));
}
H(c15_append_copy)
{
    Array a(1), b(2);
    DONE_(attempt([&] {
        json::array& r = (*a += std::as_const(*b));
        must(&r == &*a, "+= returns the target");
        must(is_concat(&*a, 1, 2), "array += array has the elements of both in order");
        must(b.same() && apart(&*a, &*b), "operands that are not rvalues stay as they were");
    }));
}
H(c15_append_move)
{
    Array a(1), b(2);
    DONE_(attempt([&] {
        json::array& r = (*a += std::move(*b));
        must(&r == &*a, "+= returns the target");
        must(is_concat(&*a, 1, 2), "array += array has the elements of both in order");
        must(apart(&*a, &*b) && consistent(&*b), "an operand that was moved is still an array");
    }));
}
H(c15_append_self)
{
    Array a(1);
    DONE_(attempt([&] {
        json::array& b = *a;
        *a += std::as_const(b);
        must(is_concat(&*a, 1, 1), "an array appended to itself has its elements twice");
    }));
}
H(c15_plus_self)
{
    Array a(1);
    DONE_(attempt([&] {
        json::array r = std::as_const(*a) + std::as_const(*a);
        must(is_concat(&r, 1, 1) && a.same(), "an array plus itself has its elements twice");
    }));
}
// ---------------------------------------------------------------- objects
H(c15_or_copy_copy)
{
    Object a(1), b(2);
    DONE_(attempt([&] {
        json::object r = std::as_const(*a) | std::as_const(*b);
        must(is_merge(&r, 1, 2), "object | object has the members of both, the right ones winning");
        must(a.same() && b.same(), "operands that are not rvalues stay as they were");
        must(apart(&r, &*a) && apart(&r, &*b), "the result shares nothing with the operands");
    }));
}
H(c15_or_copy_move)
{
    Object a(1), b(2);
    DONE_(attempt([&] {
        json::object r = std::as_const(*a) | std::move(*b);
        must(is_merge(&r, 1, 2), "object | object has the members of both, the right ones winning");
        must(a.same(), "operands that are not rvalues stay as they were");
        must(apart(&r, &*a) && apart(&r, &*b), "the result shares nothing with the operands");
        must(consistent(&*b), "an operand that was moved is still an object");
    }));
}
H(c15_or_move_copy)
{
    Object a(1), b(2);
    DONE_(attempt([&] {
        json::object r = std::move(*a) | std::as_const(*b);
        must(is_merge(&r, 1, 2), "object | object has the members of both, the right ones winning");
        must(b.same(), "operands that are not rvalues stay as they were");
        must(apart(&r, &*a) && apart(&r, &*b), "the result shares nothing with the operands");
        must(consistent(&*a), "an operand that was moved is still an object");
    }));
}
H(c15_or_move_move)
{
    Object a(1), b(2);
    DONE_(attempt([&] {
        json::object r = std::move(*a) | std::move(*b);
        must(is_merge(&r, 1, 2), "object | object has the members of both, the right ones winning");
        must(apart(&r, &*a) && apart(&r, &*b), "the result shares nothing with the operands");
        must(consistent(&*a) && consistent(&*b), "an operand that was moved is still an object");
    }));
}
H(c15_merge_copy)
{
    Object a(1), b(2);
    DONE_(attempt([&] {
        json::object& r = (*a |= std::as_const(*b));
        must(&r == &*a, "|= returns the target");
        must(is_merge(&*a, 1, 2), "object |= object has the members of both, the right ones winning");
        must(b.same() && apart(&*a, &*b), "operands that are not rvalues stay as they were");
    }));
}
H(c15_merge_move)
{
    Object a(1), b(2);
    DONE_(attempt([&] {
        json::object& r = (*a |= std::move(*b));
        must(&r == &*a, "|= returns the target");
        must(is_merge(&*a, 1, 2), "object |= object has the members of both, the right ones winning");
        must(apart(&*a, &*b) && consistent(&*b), "an operand that was moved is still an object");
    }));
}
H(c15_merge_self)
{
    Object a(1);
    DONE_(attempt([&] {
        json::object& b = *a;
        *a |= std::as_const(b);
        must(a.same(), "an object merged with itself stays as it was");
    }));
}
// ---------------------------------------------------------------- the same for values
H(c15_value_plus)
{
    Value a(1, ARR), b(2, ARR);
    DONE_(attempt([&] {
        json::array r = std::as_const(*a).as_array() + std::as_const(*b).as_array();
        must(is_concat(&r, 1, 2), "array + array has the elements of both in order");
        must(a.same() && b.same(), "operands that are not rvalues stay as they were");
    }));
}

// ---------------------------------------------------------------- an operand that is part of the other
#define PART(name, expr)                                                                              \
    H(c15_part_##name)                                                                                \
    {                                                                                                 \
        Object o(1);                                                                                  \
        Text k(2);                                                                                    \
        must(attempt([&] {                                                                            \
            json::value* v = const_cast<json::value*>(o->find_value(*k));                             \
            if (v && v->is_object()) { json::object& m = v->as_object(); expr; }                      \
        }) == DONE, "merging a part of an object into it does not throw");                            \
        must(consistent(&*o), "after a merge type and content of every member agree");                \
    }
PART(into, *o |= std::as_const(m))
PART(into_move, *o |= std::move(m))
PART(merge, json::object r = std::move(*o) | std::as_const(m); must(consistent(&r), "a merge gives an object"))
PART(merge_move, json::object r = std::move(*o) | std::move(m); must(consistent(&r), "a merge gives an object"))
#define PARTA(name, expr)                                                                             \
    H(c15_part_##name)                                                                                \
    {                                                                                                 \
        Array o(1);                                                                                   \
        size_t k = nd_size(2);                                                                        \
        must(attempt([&] {                                                                            \
            json::value* v = const_cast<json::value*>(o->find_value(k));                              \
            if (v && v->is_array()) { json::array& m = v->as_array(); expr; }                         \
        }) == DONE, "appending a part of an array to it does not throw");                             \
        must(consistent(&*o), "after a concatenation type and content of every element agree");       \
    }
PARTA(append, *o += std::as_const(m))
PARTA(append_move, *o += std::move(m))
PARTA(concat, json::array r = std::move(*o) + std::as_const(m); must(consistent(&r), "a concatenation gives an array"))
PARTA(concat_move, json::array r = std::move(*o) + std::move(m); must(consistent(&r), "a concatenation gives an array"))

// ---------------------------------------------------------------- values with containers
#define VMERGE(name, lhs, rhs, keeps_a, keeps_b)                                                      \
    H(c15_value_merge_##name)                                                                         \
    {                                                                                                 \
        Value a(1, OBJ);                                                                              \
        Object b(2);                                                                                  \
        DONE_(attempt([&] {                                                                           \
            json::value r = (lhs) | (rhs);                                                            \
            must(r.is_object() && consistent(&r), "a value merged with an object is an object");      \
            must(is_merge(&r.as_object(), 1, 2), "object | object has the members of both, the right ones winning"); \
            must((!keeps_a || a.same()) && (!keeps_b || b.same()), "operands that are not rvalues stay as they were"); \
            must(consistent(&*a) && consistent(&*b), "an operand that was moved is still a value");   \
        }));                                                                                          \
    }
VMERGE(cc, std::as_const(*a), std::as_const(*b), true, true)
VMERGE(cm, std::as_const(*a), std::move(*b), true, false)
VMERGE(mc, std::move(*a), std::as_const(*b), false, true)
VMERGE(mm, std::move(*a), std::move(*b), false, false)
#define VPLUS(name, lhs, rhs, keeps_a, keeps_b)                                                       \
    H(c15_value_concat_##name)                                                                        \
    {                                                                                                 \
        Value a(1, ARR);                                                                              \
        Array b(2);                                                                                   \
        DONE_(attempt([&] {                                                                           \
            json::value r = (lhs) + (rhs);                                                            \
            must(r.is_array() && consistent(&r), "a value appended with an array is an array");       \
            must(is_concat(&r.as_array(), 1, 2), "array + array has the elements of both in order");  \
            must((!keeps_a || a.same()) && (!keeps_b || b.same()), "operands that are not rvalues stay as they were"); \
            must(consistent(&*a) && consistent(&*b), "an operand that was moved is still a value");   \
        }));                                                                                          \
    }
VPLUS(cc, std::as_const(*a), std::as_const(*b), true, true)
VPLUS(cm, std::as_const(*a), std::move(*b), true, false)
VPLUS(mc, std::move(*a), std::as_const(*b), false, true)
VPLUS(mm, std::move(*a), std::move(*b), false, false)
#define VINPLACE(name, KIND, Cont, expr, judge, msg, keeps_b)                                         \
    H(c15_value_##name)                                                                               \
    {                                                                                                 \
        Value a(1, KIND);                                                                             \
        Cont b(2);                                                                                    \
        DONE_(attempt([&] {                                                                           \
            json::value& r = (expr);                                                                  \
            must(&r == &*a, "the in-place operator returns the target");                              \
            must(consistent(&r), "a value keeps its type in a merge or concatenation");               \
            must(judge, msg);                                                                         \
            must((!keeps_b || b.same()) && consistent(&*b), "operands that are not rvalues stay as they were"); \
        }));                                                                                          \
    }
VINPLACE(or_copy, OBJ, Object, *a |= std::as_const(*b), r.is_object() && is_merge(&r.as_object(), 1, 2), "object |= object has the members of both, the right ones winning", true)
VINPLACE(or_move, OBJ, Object, *a |= std::move(*b), r.is_object() && is_merge(&r.as_object(), 1, 2), "object |= object has the members of both, the right ones winning", false)
VINPLACE(plus_copy, ARR, Array, *a += std::as_const(*b), r.is_array() && is_concat(&r.as_array(), 1, 2), "array += array has the elements of both in order", true)
VINPLACE(plus_move, ARR, Array, *a += std::move(*b), r.is_array() && is_concat(&r.as_array(), 1, 2), "array += array has the elements of both in order", false)
