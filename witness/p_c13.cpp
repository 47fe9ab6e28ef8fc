// Copies, moves and assignments of unknown values (C13); never executed.
#include "harness.h"
#define DONE_(x) must((x) == DONE, "copying and moving do not throw")
template <class T> struct Kind;
template <> struct Kind<json::value>
{
    using Holder = Value;
    static bool same(const json::value& v, int id) { return same_value(&v, id); }
    static json::value make(int id) { Value v(id); return std::move(*v); }
};
template <> struct Kind<json::array>
{
    using Holder = Array;
    static bool same(const json::array& v, int id) { return same_array(&v, id); }
};
template <> struct Kind<json::object>
{
    using Holder = Object;
    static bool same(const json::object& v, int id) { return same_object(&v, id); }
};
template <class T> static void copy_construct()
{
    typename Kind<T>::Holder a(1);
    DONE_(attempt([&] {
        T b(std::as_const(*a));
        must(Kind<T>::same(b, 1), "a copy equals the original");
        must(a.same(), "copying leaves the original as it was");
        must(apart(&b, &*a), "a copy shares nothing with the original");
        must(consistent(&b), "a copy is a value whose type and content agree");
    }));
    must(a.same(), "destroying a copy leaves the original as it was");
}
template <class T> static void copy_assign()
{
    typename Kind<T>::Holder a(1), b(2);
    DONE_(attempt([&] {
        T& r = (*b = std::as_const(*a));
        must(&r == &*b, "assignment returns the target");
        must(Kind<T>::same(*b, 1), "after a copy assignment the target equals the source");
        must(a.same(), "a copy assignment leaves the source as it was");
        must(apart(&*b, &*a), "after a copy assignment the two share nothing");
        must(consistent(&*b), "after a copy assignment type and content of the target agree");
    }));
}
template <class T> static void move_construct()
{
    typename Kind<T>::Holder a(1);
    DONE_(attempt([&] {
        T b(std::move(*a));
        must(Kind<T>::same(b, 1), "a move transfers the content");
        must(apart(&b, &*a), "after a move the two share nothing");
        must(consistent(&b) && consistent(&*a), "after a move type and content of both agree");
        must(Kind<T>::same(b, 1), "what is left of the source has no part in the target");
    }));
}
template <class T> static void move_assign()
{
    typename Kind<T>::Holder a(1), b(2);
    DONE_(attempt([&] {
        T& r = (*b = std::move(*a));
        must(&r == &*b, "assignment returns the target");
        must(Kind<T>::same(*b, 1), "a move assignment transfers the content");
        must(apart(&*b, &*a), "after a move assignment the two share nothing");
        must(consistent(&*b) && consistent(&*a), "after a move assignment type and content of both agree");
    }));
}
template <class T> static void self_assign()
{
    typename Kind<T>::Holder a(1);
    DONE_(attempt([&] {
        T& b = *a;
        *a = std::as_const(b);
        must(a.same(), "a value assigned to itself keeps its content");
        must(consistent(&*a), "a value assigned to itself keeps type and content in agreement");
    }));
}
template <class T> static void self_move()
{
    typename Kind<T>::Holder a(1);
    DONE_(attempt([&] {
        T& b = *a;
        *a = std::move(b);
        must(a.same(), "a value moved to itself keeps its content");
        must(consistent(&*a), "a value moved to itself keeps type and content in agreement");
    }));
}
template <class T> static void swap_both()
{
    typename Kind<T>::Holder a(1), b(2);
    DONE_(attempt([&] {
        std::swap(*a, *b);
        must(Kind<T>::same(*b, 1) && Kind<T>::same(*a, 2), "a swap exchanges the contents");
        must(apart(&*b, &*a), "after a swap the two share nothing");
        must(consistent(&*b) && consistent(&*a), "after a swap type and content of both agree");
    }));
}
// a moved-from value can be used again
template <class T> static void reuse()
{
    typename Kind<T>::Holder a(1), b(2);
    DONE_(attempt([&] {
        T c(std::move(*a));
        (void)a->empty();
        T copy(*a);
        must(consistent(&copy), "a copy of a moved-from value is a value");
        must(*a == copy, "a copy of a moved-from value equals it");
        *a = *b;
        must(Kind<T>::same(*a, 2), "a moved-from value can be assigned");
        must(Kind<T>::same(c, 1), "using a moved-from value does not affect the target of the move");
    }));
}
#define ALL(f) H(c13_value_##f) { f<json::value>(); } H(c13_array_##f) { f<json::array>(); } H(c13_object_##f) { f<json::object>(); }
ALL(copy_construct)
ALL(copy_assign)
ALL(move_construct)
ALL(move_assign)
ALL(self_assign)
ALL(self_move)
ALL(swap_both)
ALL(reuse)
// ---------------------------------------------------------------- between the classes
H(c13_value_of_array)
{
    Array a(1);
    DONE_(attempt([&] {
        json::value v(std::as_const(*a));
        must(v.is_array() && same_array(&v.as_array(), 1), "a value made of an array holds its elements");
        must(a.same() && apart(&v.as_array(), &*a), "a value made of an array is a copy");
        json::value w(std::move(*a));
        must(w.is_array() && same_array(&w.as_array(), 1), "a value made of an array that is moved holds its elements");
        must(apart(&w.as_array(), &*a) && consistent(&w), "a value made of an array that is moved shares nothing with it");
    }));
}
H(c13_value_of_object)
{
    Object a(1);
    DONE_(attempt([&] {
        json::value v(std::as_const(*a));
        must(v.is_object() && same_object(&v.as_object(), 1), "a value made of an object holds its members");
        must(a.same() && apart(&v.as_object(), &*a), "a value made of an object is a copy");
        json::value w(std::move(*a));
        must(w.is_object() && same_object(&w.as_object(), 1), "a value made of an object that is moved holds its members");
        must(apart(&w.as_object(), &*a) && consistent(&w), "a value made of an object that is moved shares nothing with it");
    }));
}
H(c13_value_of_string)
{
    Text t(1);
    DONE_(attempt([&] {
        json::value v(std::as_const(*t));
        must(v.is_string() && same_view(&static_cast<const std::string_view&>(v.as_string_view()), 1), "a value made of a string is that string");
        must(t.same(), "making a value of a string leaves it as it was");
        json::value w(std::move(*t));
        must(w.is_string() && same_view(&static_cast<const std::string_view&>(w.as_string_view()), 1), "a value made of a string that is moved is that string");
        must(consistent(&v) && consistent(&w), "a value made of a string is a value");
    }));
}
H(c13_array_of_value)
{
    Value v(1, ARR);
    DONE_(attempt([&] {
        json::array a(std::as_const(*v));
        must(same_array(&a, 1) && v.same() && apart(&a, &v->as_array()), "an array made of a value is a copy of its elements");
        json::array b(std::move(*v));
        must(same_array(&b, 1), "an array made of a value that is moved has its elements");
        must(consistent(&*v), "a value that an array was made of is still a value");
    }));
}
H(c13_object_of_value)
{
    Value v(1, OBJ);
    DONE_(attempt([&] {
        json::object a(std::as_const(*v));
        must(same_object(&a, 1) && v.same() && apart(&a, &v->as_object()), "an object made of a value is a copy of its members");
        json::object b(std::move(*v));
        must(same_object(&b, 1), "an object made of a value that is moved has its members");
        must(consistent(&*v), "a value that an object was made of is still a value");
    }));
}
H(c13_as_value)
{
    Value v(1);
    DONE_(attempt([&] {
        json::value c = std::as_const(*v).as<json::value>();
        must(same_value(&c, 1) && v.same() && apart(&c, &*v), "as<value> of an lvalue is a copy");
        json::value d = std::move(*v).as<json::value>();
        must(same_value(&d, 1) && consistent(&*v) && apart(&d, &*v), "as<value> of an rvalue is a move");
    }));
}
H(c13_as_array)
{
    Value v(1, ARR);
    DONE_(attempt([&] {
        json::array c = std::as_const(*v).as<json::array>();
        must(same_array(&c, 1) && v.same() && apart(&c, &v->as_array()), "as<array> of an lvalue is a copy");
        json::array d = std::move(*v).as<json::array>();
        must(same_array(&d, 1) && consistent(&*v), "as<array> of an rvalue is a copy or a move");
    }));
}
H(c13_as_object)
{
    Value v(1, OBJ);
    DONE_(attempt([&] {
        json::object c = std::as_const(*v).as<json::object>();
        must(same_object(&c, 1) && v.same() && apart(&c, &v->as_object()), "as<object> of an lvalue is a copy");
        json::object d = std::move(*v).as<json::object>();
        must(same_object(&d, 1) && consistent(&*v), "as<object> of an rvalue is a copy or a move");
    }));
}
// ---------------------------------------------------------------- a value assigned to a part of itself, and the reverse
template <bool MOVE> static void part_of_array()
{
    Value v(1, ARR);
    size_t n = nd_size(2);
    if (!in_range(1, n)) return;
    DONE_(attempt([&] {
        json::value& part = v->as_array()[n];
        if (MOVE) *v = std::move(part);
        else *v = std::as_const(part);
        must(is_elem(&*v, 1, n), "a value that is assigned one of its elements becomes that element");
        must(consistent(&*v), "a value that is assigned one of its elements is a value");
    }));
}
H(c13_assign_element) { part_of_array<false>(); }
H(c13_move_element) { part_of_array<true>(); }
template <bool MOVE> static void part_of_object()
{
    Value v(1, OBJ);
    Text k(2);
    if (!has_key(1, 2)) return;
    DONE_(attempt([&] {
        json::value& part = v->as_object()[*k];
        if (MOVE) *v = std::move(part);
        else *v = std::as_const(part);
        must(is_member(&*v, 1, 2), "a value that is assigned one of its members becomes that member");
        must(consistent(&*v), "a value that is assigned one of its members is a value");
    }));
}
H(c13_assign_member) { part_of_object<false>(); }
H(c13_move_member) { part_of_object<true>(); }
// an element is assigned the array that it is in
H(c13_element_assigned_whole)
{
    Value v(1, ARR);
    size_t n = nd_size(2);
    if (!in_range(1, n)) return;
    DONE_(attempt([&] {
        json::value& part = v->as_array()[n];
        part = std::as_const(*v);
        must(part.is_array() && same_array(&part.as_array(), 1), "an element that is assigned its array is a copy of it");
        must(consistent(&part), "a copy of the array is a value");
    }));
}
H(c13_member_assigned_whole)
{
    Value v(1, OBJ);
    Text k(2);
    if (!has_key(1, 2)) return;
    DONE_(attempt([&] {
        json::value& part = v->as_object()[*k];
        part = std::as_const(*v);
        must(part.is_object() && same_object(&part.as_object(), 1), "a member that is assigned its object is a copy of it");
        must(consistent(&part), "a copy of the object is a value");
    }));
}
// changing a copy leaves the original alone
H(c13_change_copy_key)
{
    Value v(1, OBJ), w(3);
    Text k(2);
    DONE_(attempt([&] {
        json::value c(*v);
        c[*k] = *w;
        must(v.same(), "a change of a copy leaves the original as it was");
        c.as_object().erase(*k);
        c.as_object().clear();
        must(v.same(), "a change of a copy leaves the original as it was");
    }));
}
H(c13_change_copy_elem)
{
    Value v(1, ARR), w(3);
    size_t n = nd_size(2);
    if (!in_range(1, n)) return;
    DONE_(attempt([&] {
        json::value c(*v);
        c[n] = *w;
        must(v.same(), "a change of a copy leaves the original as it was");
        c.as_array().emplace_back(*w);
        c.as_array().clear();
        must(v.same(), "a change of a copy leaves the original as it was");
    }));
}
// an array or object assigned to a part of itself
template <bool MOVE> static void array_part_of_array()
{
    Array a(1);
    size_t n = nd_size(2);
    if (!in_range(1, n) || !(*a)[n].is_array()) return;
    DONE_(attempt([&] {
        json::array& part = (*a)[n].as_array();
        const json::array before(part);
        if (MOVE) *a = std::move(part);
        else *a = std::as_const(part);
        must(*a == before, "an array that is assigned one of its elements becomes that element");
    }));
}
H(c13_array_assign_element) { array_part_of_array<false>(); }
H(c13_array_move_element) { array_part_of_array<true>(); }
template <bool MOVE> static void object_part_of_object()
{
    Object o(1);
    Text k(2);
    if (!has_key(1, 2) || !(*o)[*k].is_object()) return;
    DONE_(attempt([&] {
        json::object& part = (*o)[*k].as_object();
        const json::object before(part);
        if (MOVE) *o = std::move(part);
        else *o = std::as_const(part);
        must(*o == before, "an object that is assigned one of its members becomes that member");
    }));
}
H(c13_object_assign_member) { object_part_of_object<false>(); }
H(c13_object_move_member) { object_part_of_object<true>(); }
