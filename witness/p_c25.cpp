// Container conversions (C25); never executed.
#include "harness.h"
// An element that keeps the value it was made of.
struct Elem
{
    json::value v;
    bool check_json(const json::value&) const { return true; }
    bool from_json(const json::value& x)
    {
        v = x;
        return true;
    }
    json::value to_json() const { return v; }
};
// Collections of all shapes, over an array that the program can compare.
struct Back // with emplace_back and reserve
{
    using value_type = json::value;
    json::array in;
    json::array::const_iterator begin() const { return in.begin(); }
    json::array::const_iterator end() const { return in.end(); }
    json::array::iterator begin() { return in.begin(); }
    json::array::iterator end() { return in.end(); }
    size_t size() const { return in.size(); }
    void reserve(size_t) {}
    void emplace_back() { in.emplace_back(); }
    void emplace_back(json::value&& v) { in.emplace_back(std::move(v)); }
    void emplace_back(const json::value& v) { in.emplace_back(v); }
};
struct Place // with emplace only, like a set; no size
{
    using value_type = json::value;
    json::array in;
    json::array::const_iterator begin() const { return in.begin(); }
    json::array::const_iterator end() const { return in.end(); }
    json::array::iterator begin() { return in.begin(); }
    json::array::iterator end() { return in.end(); }
    void emplace(json::value&& v) { in.emplace_back(std::move(v)); }
    void emplace(const json::value& v) { in.emplace_back(v); }
};
struct Users // of a user type
{
    using value_type = Elem;
    json::array in;
    const Elem* begin() const { return nullptr; }
    const Elem* end() const { return nullptr; }
    size_t size() const { return in.size(); }
    void emplace_back() {}
    void emplace_back(Elem&& e) { in.emplace_back(std::move(e.v)); }
};
struct Table // like a map
{
    using key_type = std::string;
    using mapped_type = json::value;
    using value_type = json::object::value_type;
    json::object in;
    json::object::const_iterator begin() const { return in.begin(); }
    json::object::const_iterator end() const { return in.end(); }
    json::object::iterator begin() { return in.begin(); }
    json::object::iterator end() { return in.end(); }
    size_t size() const { return in.size(); }
    void emplace(const std::string& k, json::value&& v) { in.emplace(k, std::move(v)); }
    void emplace(const std::string& k, const json::value& v) { in.emplace(k, v); }
};
enum How { LVALUE, CONSTANT, RVALUE, CAST, CAST_RVALUE };
template <class C, class J> C get(J& v, How how)
{
    switch (how) {
    case LVALUE: return v.template as<C>();
    case CONSTANT: return std::as_const(v).template as<C>();
    case RVALUE: return std::move(v).template as<C>();
    case CAST: return static_cast<C>(std::as_const(v));
    default: return static_cast<C>(std::move(v));
    }
}
// json to a collection
template <class C> void out(How how)
{
    Array a(1);
    must(attempt([&] {
        C c = get<C>(*a, how);
        must(same_array(&c.in, 1), "every element is converted exactly once and in order");
        if (how == LVALUE || how == CONSTANT || how == CAST) must(a.same(), "the array that is converted is left as it was");
    }) == DONE, "the conversion of an array to a collection of values succeeds");
}
template <class C> void out_value(How how)
{
    Value v(1);
    C c {};
    Outcome o = attempt([&] { c = get<C>(*v, how); });
    must(o != OTHEREX, "the conversion to a collection fails with another exception than json::exception");
    if (o == DONE && v.is(ARR)) must(same_array(&c.in, 1), "every element is converted exactly once and in order");
    if (!v.is(NUL | STR | OBJ)) must((o == DONE) == v.is(ARR), "the conversion to a collection succeeds exactly for arrays");
    if (how == CONSTANT) must((o == DONE) == v.is(ARR), "the conversion to a collection succeeds exactly for arrays");
}
#define F1(f, T, how) H(c25_##f##_##T##_##how) { f<T>(how); }
#define F(f, T) F1(f, T, LVALUE) F1(f, T, CONSTANT) F1(f, T, RVALUE) F1(f, T, CAST) F1(f, T, CAST_RVALUE)
F(out, Back)
F(out, Place)
F(out, Users)
F(out_value, Back)
F1(out_value, Place, CONSTANT)
F1(out_value, Place, RVALUE)
// json to a map
template <class C> void out_map(How how)
{
    Object a(1);
    must(attempt([&] {
        C c = get<C>(*a, how);
        must(same_object(&c.in, 1), "every member is converted exactly once at its own key");
        if (how == LVALUE || how == CONSTANT || how == CAST) must(a.same(), "the object that is converted is left as it was");
    }) == DONE, "the conversion of an object to a map of values succeeds");
}
template <class C> void out_map_value(How how)
{
    Value v(1);
    C c {};
    Outcome o = attempt([&] { c = get<C>(*v, how); });
    must(o != OTHEREX, "the conversion to a map fails with another exception than json::exception");
    if (o == DONE && v.is(OBJ)) must(same_object(&c.in, 1), "every member is converted exactly once at its own key");
    if (!v.is(NUL | STR | ARR)) must((o == DONE) == v.is(OBJ), "the conversion to a map succeeds exactly for objects");
    if (how == CONSTANT) must((o == DONE) == v.is(OBJ), "the conversion to a map succeeds exactly for objects");
}
F(out_map, Table)
F(out_map_value, Table)
// collections to json
template <class C, class J> void in(bool move)
{
    Array a(1);
    C c { std::move(*a) };
    must(attempt([&] {
        if (move) {
            J j(std::move(c));
            if constexpr (std::is_same_v<J, json::array>) must(same_array(&j, 1), "every element is converted exactly once and in order");
            else must(j.is_array() && same_array(&std::as_const(j).as_array(), 1), "every element is converted exactly once and in order");
        }
        else {
            J j(c);
            if constexpr (std::is_same_v<J, json::array>) must(same_array(&j, 1), "every element is converted exactly once and in order");
            else must(j.is_array() && same_array(&std::as_const(j).as_array(), 1), "every element is converted exactly once and in order");
            J k(std::as_const(c));
            if constexpr (std::is_same_v<J, json::array>) must(same_array(&k, 1), "every element is converted exactly once and in order");
            else must(k.is_array() && same_array(&std::as_const(k).as_array(), 1), "every element is converted exactly once and in order");
            must(same_array(&c.in, 1), "the collection that is converted is left as it was");
        }
    }) == DONE, "the conversion of a collection succeeds");
}
H(c25_in_back_array) { in<Back, json::array>(false); }
H(c25_in_back_array_move) { in<Back, json::array>(true); }
H(c25_in_back_value) { in<Back, json::value>(false); }
H(c25_in_back_value_move) { in<Back, json::value>(true); }
H(c25_in_place_array) { in<Place, json::array>(false); }
H(c25_in_place_array_move) { in<Place, json::array>(true); }
H(c25_in_place_value) { in<Place, json::value>(false); }
H(c25_in_place_value_move) { in<Place, json::value>(true); }
template <class J> void in_map(bool move)
{
    Object a(1);
    Table c { std::move(*a) };
    must(attempt([&] {
        if (move) {
            J j(std::move(c));
            if constexpr (std::is_same_v<J, json::object>) must(same_object(&j, 1), "every member is converted exactly once at its own key");
            else must(j.is_object() && same_object(&std::as_const(j).as_object(), 1), "every member is converted exactly once at its own key");
        }
        else {
            J j(c);
            if constexpr (std::is_same_v<J, json::object>) must(same_object(&j, 1), "every member is converted exactly once at its own key");
            else must(j.is_object() && same_object(&std::as_const(j).as_object(), 1), "every member is converted exactly once at its own key");
            must(same_object(&c.in, 1), "the map that is converted is left as it was");
        }
    }) == DONE, "the conversion of a map succeeds");
}
H(c25_in_map_object) { in_map<json::object>(false); }
H(c25_in_map_object_move) { in_map<json::object>(true); }
H(c25_in_map_value) { in_map<json::value>(false); }
H(c25_in_map_value_move) { in_map<json::value>(true); }
// fixed sizes
static int accessed; // elements asked for
struct Count
{
    json::value v;
    bool check_json(const json::value&) const { return true; }
    bool from_json(const json::value& x)
    {
        ++accessed;
        v = x;
        return true;
    }
    json::value to_json() const { return v; }
};
template <class C, size_t... Is> void at_own(const C& c, std::index_sequence<Is...>)
{
    using std::get;
    (must(is_elem(&get<Is>(c).v, 1, Is), "every element is converted at its own position"), ...);
}
template <class C, size_t N> void fixed(How how)
{
    Array a(1);
    C c {};
    accessed = 0;
    Outcome o = attempt([&] { c = get<C>(*a, how); });
    must(o != OTHEREX, "a conversion to a fixed size fails with another exception than json::exception");
    must((o == DONE) == has_size(1, N), "a conversion to a fixed size succeeds exactly for arrays of that size");
    if (o == DONE) {
        must(accessed == int(N), "every element is converted exactly once");
        at_own(c, std::make_index_sequence<N>());
    }
    else must(accessed == 0, "an array of another size is refused before any element is converted");
    if (how == LVALUE || how == CONSTANT || how == CAST || o != DONE) must(a.same(), "the array that is converted is left as it was");
}
template <class C, size_t N> void fixed_value(How how)
{
    Value a(1);
    C c {};
    accessed = 0;
    Outcome o = attempt([&] { c = get<C>(*a, how); });
    must(o != OTHEREX, "a conversion to a fixed size fails with another exception than json::exception");
    must((o == DONE) == (a.is(ARR) && has_size(1, N)), "a conversion to a fixed size succeeds exactly for arrays of that size");
    if (o == DONE) at_own(c, std::make_index_sequence<N>());
    else must(accessed == 0, "an array of another size is refused before any element is converted");
}
using Arr1 = std::array<Count, 1>;
using Arr3 = std::array<Count, 3>;
using Pair = std::pair<Count, Count>;
using Tup3 = std::tuple<Count, Count, Count>;
using Tup1 = std::tuple<Count>;
#define G1(f, T, N, how) H(c25_##f##_##T##_##how) { f<T, N>(how); }
#define G(f, T, N) G1(f, T, N, LVALUE) G1(f, T, N, CONSTANT) G1(f, T, N, RVALUE) G1(f, T, N, CAST) G1(f, T, N, CAST_RVALUE)
G(fixed, Arr1, 1)
G(fixed, Arr3, 3)
G(fixed, Pair, 2)
G(fixed, Tup3, 3)
G1(fixed, Tup1, 1, LVALUE)
G1(fixed, Tup1, 1, CONSTANT)
G1(fixed, Tup1, 1, RVALUE)
G(fixed_value, Arr3, 3)
G(fixed_value, Pair, 2)
G(fixed_value, Tup3, 3)
G1(fixed_value, Tup1, 1, LVALUE)
G1(fixed_value, Tup1, 1, CONSTANT)
G1(fixed_value, Tup1, 1, RVALUE)
// fixed sizes to json
template <class J, class C> void in_fixed(bool move, C&& c, int n)
{
    must(attempt([&] {
        J j = move ? J(std::move(c)) : J(c);
        const json::array& a = [&]() -> const json::array& {
            if constexpr (std::is_same_v<J, json::array>) return j;
            else return std::as_const(j).as_array();
        }();
        must(a.size() == size_t(n), "every element is converted exactly once");
        for (int i = 0; i != n; ++i) must(same_value(&a[i], 1 + i), "every element is converted at its own position");
    }) == DONE, "the conversion of a fixed size succeeds");
}
#define IN(name, n, ...)                                                                                                   \
    H(c25_in_##name##_array) { Value a(1, STR | NUL | NUM), b(2, STR | NUL), c(3, STR); in_fixed<json::array>(false, __VA_ARGS__, n); }      \
    H(c25_in_##name##_array_move) { Value a(1, STR | NUL | NUM), b(2, STR | NUL), c(3, STR); in_fixed<json::array>(true, __VA_ARGS__, n); }  \
    H(c25_in_##name##_value) { Value a(1, STR | NUL | NUM), b(2, STR | NUL), c(3, STR); in_fixed<json::value>(false, __VA_ARGS__, n); }      \
    H(c25_in_##name##_value_move) { Value a(1, STR | NUL | NUM), b(2, STR | NUL), c(3, STR); in_fixed<json::value>(true, __VA_ARGS__, n); }
IN(fixed3, 3, std::array<json::value, 3> { *a, *b, *c })
IN(fixed2, 2, std::array<json::value, 2> { *a, *b })
IN(pair, 2, std::pair<json::value, json::value> { *a, *b })
IN(tuple3, 3, std::tuple<json::value, json::value, json::value> { *a, *b, *c })
IN(tuple1, 1, std::tuple<json::value> { *a })
