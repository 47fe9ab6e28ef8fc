// Queries of unknown values (C11); never executed.
#include "harness.h"
#define NEVER(x) must((x) == DONE, "a query never throws")
#define TYPE(name, expr, kinds)                                                                       \
    H(c11_##name)                                                                                     \
    {                                                                                                 \
        Value v(1);                                                                                   \
        bool b = false;                                                                               \
        NEVER(attempt([&] { b = (expr); }));                                                          \
        must(b == v.is(kinds), "the answer is that of the type");                                     \
        must(v.same(), "a query leaves the value as it was");                                         \
    }
TYPE(valid, v->valid(), ANY)
TYPE(is_null, v->is_null(), NUL)
TYPE(is_boolean, v->is_boolean(), BOO)
TYPE(is_string, v->is_string(), STR)
TYPE(is_number, v->is_number(), NUM)
TYPE(is_array, v->is_array(), ARR)
TYPE(is_object, v->is_object(), OBJ)
TYPE(is_t_value, v->is<json::value>(), ANY)
TYPE(is_t_bool, v->is<bool>(), BOO)
TYPE(is_t_string, v->is<std::string>(), STR)
TYPE(is_t_array, v->is<json::array>(), ARR)
TYPE(is_t_object, v->is<json::object>(), OBJ)
TYPE(is_t_null, v->is<std::nullptr_t>(), NUL)
TYPE(is_t_monostate, v->is<std::monostate>(), NUL)
TYPE(is_t_values, v->is<std::vector<json::value>>(), ARR)
TYPE(is_t_map_of_values, (v->is<std::map<std::string, json::value>>()), OBJ)
TYPE(is_t_optional, v->is<std::optional<std::string>>(), NUL | STR)
H(c11_empty)
{
    Value v(1);
    bool b = false;
    NEVER(attempt([&] { b = v->empty(); }));
    must(b == (v.is(NUL) || (v.is(STR | ARR | OBJ) && is_empty(1))), "empty is true for null and empty texts and containers");
    must(v.same(), "a query leaves the value as it was");
}
H(c11_type)
{
    Value v(1);
    auto t = json::value::value_type::invalid;
    NEVER(attempt([&] { t = v->type(); }));
    using T = json::value::value_type;
    must(t == (v.is(NUL) ? T::null : v.is(BOO) ? T::boolean : v.is(STR) ? T::string : v.is(NUM) ? T::number : v.is(ARR) ? T::array : T::object), "type() is the type");
    must(v.same(), "a query leaves the value as it was");
}
H(c11_type_name)
{
    Value v(1);
    Outcome o = attempt([&] {
        std::string name = v->type_name();
        must(name == (v.is(NUL) ? "null" : v.is(BOO) ? "boolean" : v.is(STR) ? "string" : v.is(NUM) ? "number" : v.is(ARR) ? "array" : "object"), "type_name() is the name of the type");
    });
    NEVER(o);
    must(v.same(), "a query leaves the value as it was");
}
H(c11_value_info)
{
    Value v(1);
    NEVER(attempt([&] { (void)v->value_info(); }));
    must(v.same(), "a query leaves the value as it was");
}
// ---------------------------------------------------------------- positions
H(c11_contains_pos)
{
    Value v(1);
    size_t n = nd_size(2);
    bool b = false, e = false;
    NEVER(attempt([&] { b = v->contains(n); e = v->exists(n); }));
    must(b == (v.is(ARR) && in_range(1, n)), "contains(position) is true exactly for the positions of an array");
    must(e == b, "exists(position) answers as contains(position)");
    must(v.same(), "a query leaves the value as it was");
}
H(c11_find_value_pos)
{
    Value v(1);
    size_t n = nd_size(2);
    const json::value* p = nullptr;
    NEVER(attempt([&] { p = v->find_value(n); }));
    must((p != nullptr) == (v.is(ARR) && in_range(1, n)), "find_value(position) finds exactly the elements of an array");
    if (p) must(is_elem(p, 1, n), "find_value(position) gives the element at the position");
    must(v.same(), "a query leaves the value as it was");
}
H(c11_find_pos)
{
    Value v(1);
    size_t n = nd_size(2);
    NEVER(attempt([&] {
        std::optional<json::value> p = v->find(n);
        must(p.has_value() == (v.is(ARR) && in_range(1, n)), "find(position) finds exactly the elements of an array");
        if (p) must(is_elem(&*p, 1, n), "find(position) gives the element at the position");
    }));
    must(v.same(), "a query leaves the value as it was");
}
H(c11_get_pos)
{
    Value v(1), d(3);
    size_t n = nd_size(2);
    NEVER(attempt([&] {
        json::value r = v->get(n, *d);
        if (v.is(ARR) && in_range(1, n)) must(is_elem(&r, 1, n), "get(position) gives the element at the position");
        else must(same_value(&r, 3), "get(position) gives the default when there is no such element");
    }));
    must(v.same() && d.same(), "a query leaves the value as it was");
}
H(c11_array_pos)
{
    Array a(1);
    size_t n = nd_size(2);
    NEVER(attempt([&] {
        bool in = in_range(1, n);
        must(a->contains(n) == in, "contains(position) of an array");
        must(a->exists(n) == in, "exists(position) of an array");
        const json::value* p = std::as_const(*a).find_value(n);
        must((p != nullptr) == in, "find_value(position) of an array");
        if (p) must(is_elem(p, 1, n), "find_value(position) gives the element at the position");
        must(a->empty() == is_empty(1), "empty of an array");
    }));
    must(a.same(), "a query leaves the array as it was");
}
H(c11_array_find_get)
{
    Array a(1);
    Value d(3);
    size_t n = nd_size(2);
    NEVER(attempt([&] {
        std::optional<json::value> p = a->find(n);
        must(p.has_value() == in_range(1, n), "find(position) of an array");
        if (p) must(is_elem(&*p, 1, n), "find(position) gives the element at the position");
        json::value r = a->get(n, *d);
        if (in_range(1, n)) must(is_elem(&r, 1, n), "get(position) gives the element at the position");
        else must(same_value(&r, 3), "get(position) gives the default when there is no such element");
    }));
    must(a.same(), "a query leaves the array as it was");
}
// a position that is known; first, second, third
template <size_t N> static void fixed_pos()
{
    Value v(1);
    NEVER(attempt([&] {
        bool in = v.is(ARR) && in_range(1, N);
        must(v->contains(N) == in, "contains(position) is true exactly for the positions of an array");
        const json::value* p = v->find_value(N);
        must((p != nullptr) == in, "find_value(position) finds exactly the elements of an array");
        if (p) must(is_elem(p, 1, N), "find_value(position) gives the element at the position");
        std::string s = v->get(N, "default");
        (void)s;
    }));
    must(v.same(), "a query leaves the value as it was");
}
H(c11_pos_first) { fixed_pos<0>(); }
H(c11_pos_second) { fixed_pos<1>(); }
// ---------------------------------------------------------------- keys
H(c11_contains_key)
{
    Value v(1);
    Text k(2);
    bool b = false, e = false;
    NEVER(attempt([&] { b = v->contains(*k); e = v->exists(*k); }));
    must(b == (v.is(OBJ) && has_key(1, 2)), "contains(key) is true exactly for the members of an object");
    must(e == b, "exists(key) answers as contains(key)");
    must(v.same() && k.same(), "a query leaves the value as it was");
}
H(c11_find_value_key)
{
    Value v(1);
    Text k(2);
    const json::value* p = nullptr;
    NEVER(attempt([&] { p = v->find_value(*k); }));
    must((p != nullptr) == (v.is(OBJ) && has_key(1, 2)), "find_value(key) finds exactly the members of an object");
    if (p) must(is_member(p, 1, 2), "find_value(key) gives the member of that name");
    must(v.same() && k.same(), "a query leaves the value as it was");
}
H(c11_find_key)
{
    Value v(1);
    Text k(2);
    NEVER(attempt([&] {
        std::optional<json::value> p = v->find(*k);
        must(p.has_value() == (v.is(OBJ) && has_key(1, 2)), "find(key) finds exactly the members of an object");
        if (p) must(is_member(&*p, 1, 2), "find(key) gives the member of that name");
    }));
    must(v.same() && k.same(), "a query leaves the value as it was");
}
H(c11_get_key)
{
    Value v(1), d(3);
    Text k(2);
    NEVER(attempt([&] {
        json::value r = v->get(*k, *d);
        if (v.is(OBJ) && has_key(1, 2)) must(is_member(&r, 1, 2), "get(key) gives the member of that name");
        else must(same_value(&r, 3), "get(key) gives the default when there is no such member");
    }));
    must(v.same() && d.same() && k.same(), "a query leaves the value as it was");
}
H(c11_object_key)
{
    Object a(1);
    Text k(2);
    NEVER(attempt([&] {
        bool in = has_key(1, 2);
        must(a->contains(*k) == in, "contains(key) of an object");
        must(a->exists(*k) == in, "exists(key) of an object");
        const json::value* p = std::as_const(*a).find_value(*k);
        must((p != nullptr) == in, "find_value(key) of an object");
        if (p) must(is_member(p, 1, 2), "find_value(key) gives the member of that name");
        must(a->empty() == is_empty(1), "empty of an object");
    }));
    must(a.same() && k.same(), "a query leaves the object as it was");
}
H(c11_object_find_get)
{
    Object a(1);
    Value d(3);
    Text k(2);
    NEVER(attempt([&] {
        std::optional<json::value> p = a->find(*k);
        must(p.has_value() == has_key(1, 2), "find(key) of an object");
        if (p) must(is_member(&*p, 1, 2), "find(key) gives the member of that name");
        json::value r = a->get(*k, *d);
        if (has_key(1, 2)) must(is_member(&r, 1, 2), "get(key) gives the member of that name");
        else must(same_value(&r, 3), "get(key) gives the default when there is no such member");
    }));
    must(a.same(), "a query leaves the object as it was");
}
// ---------------------------------------------------------------- typed defaults and paths
template <class T, class F> static void typed(F get, const char* type)
{
    Value v(1);
    (void)type;
    NEVER(attempt([&] { T r = get(*v); (void)r; }));
    must(v.same(), "a query leaves the value as it was");
}
H(c11_get_int) { typed<int>([](json::value& v) { return v.get("key", 5); }, "int"); }
H(c11_get_string) { typed<std::string>([](json::value& v) { return v.get("key", "text"); }, "string"); }
H(c11_get_bool) { typed<bool>([](json::value& v) { return v.get("key", true); }, "bool"); }
H(c11_get_path) { typed<int>([](json::value& v) { return v.get("key", size_t(1), "other", 7); }, "int"); }
H(c11_get_path_pos) { typed<double>([](json::value& v) { return v.get(0, "key", 0.5); }, "double"); }
H(c11_find_int) { typed<bool>([](json::value& v) { return v.find<int>("key").has_value(); }, "bool"); }
H(c11_find_int_pos) { typed<bool>([](json::value& v) { return v.find<int>(size_t(1)).has_value(); }, "bool"); }
H(c11_find_string) { typed<bool>([](json::value& v) { return v.find<std::string>("key").has_value(); }, "bool"); }
H(c11_is_vector) { typed<bool>([](json::value& v) { return v.is<std::vector<int>>(); }, "bool"); }
H(c11_is_list) { typed<bool>([](json::value& v) { return v.is<std::list<std::string>>(); }, "bool"); }
H(c11_is_map) { typed<bool>([](json::value& v) { return v.is<std::map<std::string, int>>(); }, "bool"); }
H(c11_is_array2) { typed<bool>([](json::value& v) { return v.is<std::array<std::string, 2>>(); }, "bool"); }
H(c11_is_tuple) { typed<bool>([](json::value& v) { return v.is<std::tuple<std::string, int>>(); }, "bool"); }
H(c11_is_pair) { typed<bool>([](json::value& v) { return v.is<std::pair<std::string, bool>>(); }, "bool"); }
H(c11_is_variant) { typed<bool>([](json::value& v) { return v.is<std::variant<std::string, int>>(); }, "bool"); }
H(c11_all) { typed<bool>([](json::value& v) { return v.all<int>(); }, "bool"); }
H(c11_is_nested) { typed<bool>([](json::value& v) { return v.is<std::vector<std::vector<std::string>>>(); }, "bool"); }
// ---------------------------------------------------------------- what answers of composed types mean
template <class T> static void answers(int kinds, const char*)
{
    Value v(1);
    bool b = false;
    NEVER(attempt([&] { b = v->is<T>(); }));
    must(!b || v.is(kinds), "is<T> is false for a value of another type");
    must(v.same(), "a query leaves the value as it was");
}
H(c11_only_tuple) { answers<std::tuple<std::string, int>>(ARR, ""); }
H(c11_only_pair) { answers<std::pair<bool, std::string>>(ARR, ""); }
H(c11_only_fixed) { answers<std::array<std::string, 2>>(ARR, ""); }
H(c11_only_list) { answers<std::list<std::string>>(ARR, ""); }
H(c11_only_map) { answers<std::map<std::string, bool>>(OBJ, ""); }
H(c11_only_variant) { answers<std::variant<std::string, int>>(STR | NUM, ""); }
H(c11_only_unique) { answers<std::unique_ptr<std::string>>(NUL | STR, ""); }
TYPE(is_t_variant, (v->is<std::variant<std::string, bool>>()), STR | BOO)
TYPE(is_t_variant1, (v->is<std::variant<json::array>>()), ARR)
TYPE(is_t_variant3, (v->is<std::variant<json::array, std::monostate, json::object>>()), ARR | NUL | OBJ)
template <class T, class F> static void shaped(F make, bool expected)
{
    Text s(2);
    bool b = !expected;
    attempt([&] {
        json::value v(make(*s));
        NEVER(attempt([&] { b = std::as_const(v).template is<T>(); }));
        must(b == expected, "is<T> answers whether every element has the type asked for");
    });
}
using Pair_ = std::pair<std::string, bool>;
using Triple_ = std::tuple<std::string, bool, std::string>;
H(c11_shape_pair) { shaped<Pair_>([](const std::string& s) { return json::array{ json::value(s), json::value(true) }; }, true); }
H(c11_shape_pair_swapped) { shaped<Pair_>([](const std::string& s) { return json::array{ json::value(true), json::value(s) }; }, false); }
H(c11_shape_pair_first) { shaped<Pair_>([](const std::string&) { return json::array{ json::value(true), json::value(true) }; }, false); }
H(c11_shape_pair_second) { shaped<Pair_>([](const std::string& s) { return json::array{ json::value(s), json::value(s) }; }, false); }
H(c11_shape_pair_short) { shaped<Pair_>([](const std::string& s) { return json::array{ json::value(s) }; }, false); }
H(c11_shape_pair_long) { shaped<Pair_>([](const std::string& s) { return json::array{ json::value(s), json::value(true), json::value(s) }; }, false); }
H(c11_shape_triple) { shaped<Triple_>([](const std::string& s) { return json::array{ json::value(s), json::value(true), json::value(s) }; }, true); }
H(c11_shape_triple_last) { shaped<Triple_>([](const std::string& s) { return json::array{ json::value(s), json::value(true), json::value(true) }; }, false); }
H(c11_shape_triple_middle) { shaped<Triple_>([](const std::string& s) { return json::array{ json::value(s), json::value(s), json::value(s) }; }, false); }
H(c11_shape_fixed) { shaped<std::array<std::string, 2>>([](const std::string& s) { return json::array{ json::value(s), json::value(s) }; }, true); }
H(c11_shape_fixed_short) { shaped<std::array<std::string, 2>>([](const std::string& s) { return json::array{ json::value(s) }; }, false); }
H(c11_shape_fixed_long) { shaped<std::array<std::string, 2>>([](const std::string& s) { return json::array{ json::value(s), json::value(s), json::value(s) }; }, false); }
H(c11_shape_fixed_mixed) { shaped<std::array<std::string, 2>>([](const std::string& s) { return json::array{ json::value(s), json::value(true) }; }, false); }
H(c11_shape_vector) { shaped<std::vector<bool>>([](const std::string&) { return json::array{ json::value(true), json::value(false) }; }, true); }
H(c11_shape_vector_last) { shaped<std::vector<bool>>([](const std::string& s) { return json::array{ json::value(true), json::value(s) }; }, false); }
H(c11_shape_vector_first) { shaped<std::vector<bool>>([](const std::string& s) { return json::array{ json::value(s), json::value(true) }; }, false); }
H(c11_shape_nested) { shaped<std::vector<std::vector<bool>>>([](const std::string&) { return json::array{ json::value(json::array{ json::value(true) }), json::value(json::array()) }; }, true); }
H(c11_shape_nested_bad) { shaped<std::vector<std::vector<bool>>>([](const std::string& s) { return json::array{ json::value(json::array{ json::value(true), json::value(s) }) }; }, false); }
H(c11_shape_map) { shaped<std::map<std::string, bool>>([](const std::string& s) { return json::object{ { s, json::value(true) } }; }, true); }
H(c11_shape_map_bad) { shaped<std::map<std::string, bool>>([](const std::string& s) { return json::object{ { s, json::value(s) } }; }, false); }
H(c11_shape_array_of_maps) { shaped<std::vector<std::map<std::string, bool>>>([](const std::string& s) { return json::array{ json::value(json::object{ { s, json::value(true) } }) }; }, true); }
// ---------------------------------------------------------------- typed lookups answer as the untyped ones
template <class C, class K> static void typed_lookup(const C& c, const K& k)
{
    const json::value* p = c.find_value(k);
    Outcome o = attempt([&] {
        auto s = c.template find<std::string>(k);
        must(s.has_value() == (p && p->is_string()), "find<string> finds exactly the texts");
        if (s) must(*s == p->as_string(), "find<string> gives the text of the member");
        auto b = c.template find<bool>(k);
        must(b.has_value() == (p && p->is_boolean()), "find<bool> finds exactly the booleans");
        if (b) must(*b == p->as_boolean(), "find<bool> gives the boolean of the member");
        auto a = c.template find<json::array>(k);
        must(a.has_value() == (p && p->is_array()), "find<array> finds exactly the arrays");
    });
    NEVER(o);
    NEVER(attempt([&] {
        std::string r = c.get(k, "text");
        must(p && p->is_string() ? r == p->as_string() : r == "text", "get(key, text) gives the text that is there, else the default");
        bool f = c.get(k, true);
        must(f == (p && p->is_boolean() ? p->as_boolean() : true), "get(key, bool) gives the boolean that is there, else the default");
    }));
}
H(c11_lookup_object) { Object o(1); Text k(2); typed_lookup(std::as_const(*o), *k); must(o.same() && k.same(), "a query leaves the object as it was"); }
H(c11_lookup_array) { Array a(1); size_t n = nd_size(2); typed_lookup(std::as_const(*a), n); must(a.same(), "a query leaves the array as it was"); }
H(c11_lookup_value_key) { Value v(1); Text k(2); typed_lookup(std::as_const(*v), *k); must(v.same() && k.same(), "a query leaves the value as it was"); }
H(c11_lookup_value_pos) { Value v(1); size_t n = nd_size(2); typed_lookup(std::as_const(*v), n); must(v.same(), "a query leaves the value as it was"); }
template <class C, class K1, class K2> static void path_lookup(const C& c, const K1& k1, const K2& k2)
{
    const json::value* p = c.find_value(k1);
    if (p) p = p->find_value(k2);
    NEVER(attempt([&] {
        std::string r = c.get(k1, k2, "text");
        must(p && p->is_string() ? r == p->as_string() : r == "text", "get(path, text) gives the text at the end of the path, else the default");
        bool f = c.get(k1, k2, true);
        must(f == (p && p->is_boolean() ? p->as_boolean() : true), "get(path, bool) gives the boolean at the end of the path, else the default");
    }));
}
H(c11_path_object) { Object o(1); Text k(2), l(3); path_lookup(std::as_const(*o), *k, *l); must(o.same(), "a query leaves the object as it was"); }
H(c11_path_object_pos) { Object o(1); Text k(2); size_t n = nd_size(3); path_lookup(std::as_const(*o), *k, n); must(o.same(), "a query leaves the object as it was"); }
H(c11_path_array) { Array a(1); size_t n = nd_size(2); Text k(3); path_lookup(std::as_const(*a), n, *k); must(a.same(), "a query leaves the array as it was"); }
H(c11_path_array_pos) { Array a(1); size_t n = nd_size(2), m = nd_size(3); path_lookup(std::as_const(*a), n, m); must(a.same(), "a query leaves the array as it was"); }
H(c11_path_value) { Value v(1); Text k(2), l(3); path_lookup(std::as_const(*v), *k, *l); must(v.same(), "a query leaves the value as it was"); }
H(c11_path_value_pos) { Value v(1); size_t n = nd_size(2); Text k(3); path_lookup(std::as_const(*v), n, *k); must(v.same(), "a query leaves the value as it was"); }
TYPE(is_t_variant_overlap, (v->is<std::variant<std::string, json::value>>()), ANY)
TYPE(is_t_variant_twice, (v->is<std::variant<std::vector<json::value>, json::array, std::monostate>>()), ARR | NUL)
H(c11_shape_variant) { shaped<std::variant<std::vector<bool>, std::string, json::array>>([](const std::string&) { return json::array{ json::value(true) }; }, true); }
H(c11_shape_variant_none) { shaped<std::variant<std::vector<bool>, std::string, Pair_>>([](const std::string& s) { return json::array{ json::value(s) }; }, false); }
