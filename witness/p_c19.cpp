// User conversions that fail (C19); never executed.
#include "harness.h"
// what the user's conversion answered: never, yes, or no
static bool asked, refused;
static bool answer()
{
    asked = true;
    bool b = nd_bool();
    if (!b) refused = true;
    return b;
}
static void fresh() { asked = refused = false; }
struct Mem
{
    int x = 0;
    json::value to_json() const { return json::value(x); }
    bool check_json(const json::value&) const { return true; }
    bool from_json(const json::value&) { return answer(); }
};
struct Spec { int x = 0; };
struct Mov { int x = 0; };
struct Both { int x = 0; };
namespace json::ext
{
template <> class jsonization<Spec>
{
public:
    json::value to_json(const Spec& s) const { return json::value(s.x); }
    bool check_json(const json::value&) const { return true; }
    bool from_json(const json::value&, Spec&) const { return answer(); }
};
template <> class jsonization<Mov>
{
public:
    json::value move_to_json(Mov&& s) const { return json::value(s.x); }
    bool check_json(const json::value&) const { return true; }
    bool move_from_json(json::value&&, Mov&) const { return answer(); }
};
template <> class jsonization<Both>
{
public:
    json::value to_json(const Both& s) const { return json::value(s.x); }
    bool check_json(const json::value&) const { return true; }
    bool from_json(const json::value&, Both&) const { return answer(); }
    bool move_from_json(json::value&&, Both&) const { return answer(); }
};
}
// collections of any number of elements
template <class T> struct Back
{
    using value_type = T;
    const T* begin() const { return nullptr; }
    const T* end() const { return nullptr; }
    void emplace_back() {}
    void emplace_back(T&&) {}
};
template <class T> struct Place
{
    using value_type = T;
    const T* begin() const { return nullptr; }
    const T* end() const { return nullptr; }
    void emplace(T&&) {}
};
template <class T> struct Table
{
    using key_type = std::string;
    using mapped_type = T;
    using value_type = std::pair<const std::string, T>;
    const value_type* begin() const { return nullptr; }
    const value_type* end() const { return nullptr; }
    void emplace(const std::string&, T&&) {}
};
template <class F> void reported(F f)
{
    fresh();
    Outcome o = attempt(f);
    must(o != OTHEREX, "a failed conversion ends with another exception than json::exception");
    must(!(o == DONE && refused), "a user conversion that returned false is reported");
    must(o != DONE || asked, "the user conversion is asked");
    must(o != JSONEX || refused, "a user conversion that returned true is not reported as failed");
}
// the same where the value may be refused for its shape as well
template <class F> void nested(F f)
{
    fresh();
    Outcome o = attempt(f);
    must(o != OTHEREX, "a failed conversion ends with another exception than json::exception");
    must(!(o == DONE && refused), "a user conversion that returned false is reported");
}
#define V(name, kinds, ...) H(c19_##name) { Value v(1, kinds); __VA_ARGS__; }
V(as_member, ANY, reported([&] { (void)v->as<Mem>(); }))
V(as_member_const, ANY, reported([&] { (void)std::as_const(*v).as<Mem>(); }))
V(as_member_rvalue, ANY, reported([&] { (void)std::move(*v).as<Mem>(); }))
V(cast_member, ANY, reported([&] { (void)static_cast<Mem>(*v); }))
V(cast_member_const, ANY, reported([&] { (void)static_cast<Mem>(std::as_const(*v)); }))
V(cast_member_rvalue, ANY, reported([&] { (void)static_cast<Mem>(std::move(*v)); }))
V(as_spec, ANY, reported([&] { (void)v->as<Spec>(); }))
V(as_spec_const, ANY, reported([&] { (void)std::as_const(*v).as<Spec>(); }))
V(as_spec_rvalue, ANY, reported([&] { (void)std::move(*v).as<Spec>(); }))
V(cast_spec, ANY, reported([&] { (void)static_cast<Spec>(*v); }))
V(cast_spec_const, ANY, reported([&] { (void)static_cast<Spec>(std::as_const(*v)); }))
V(cast_spec_rvalue, ANY, reported([&] { (void)static_cast<Spec>(std::move(*v)); }))
V(as_move_rvalue, ANY, reported([&] { (void)std::move(*v).as<Mov>(); }))
V(cast_move_rvalue, ANY, reported([&] { (void)static_cast<Mov>(std::move(*v)); }))
V(as_both, ANY, reported([&] { (void)v->as<Both>(); }))
V(as_both_rvalue, ANY, reported([&] { (void)std::move(*v).as<Both>(); }))
V(cast_both, ANY, reported([&] { (void)static_cast<Both>(std::as_const(*v)); }))
#define A(name, ...) H(c19_array_##name) { Array a(1); __VA_ARGS__; }
#define O(name, ...) H(c19_object_##name) { Object o(1); __VA_ARGS__; }
A(cast_member, reported([&] { (void)static_cast<Mem>(*a); }))
A(cast_member_rvalue, reported([&] { (void)static_cast<Mem>(std::move(*a)); }))
A(cast_spec, reported([&] { (void)static_cast<Spec>(*a); }))
A(cast_spec_rvalue, reported([&] { (void)static_cast<Spec>(std::move(*a)); }))
A(cast_move, reported([&] { (void)static_cast<Mov>(std::move(*a)); }))
O(cast_member, reported([&] { (void)static_cast<Mem>(*o); }))
O(cast_member_rvalue, reported([&] { (void)static_cast<Mem>(std::move(*o)); }))
O(cast_spec, reported([&] { (void)static_cast<Spec>(*o); }))
O(cast_spec_rvalue, reported([&] { (void)static_cast<Spec>(std::move(*o)); }))
O(cast_move, reported([&] { (void)static_cast<Mov>(std::move(*o)); }))
V(optional_member, ANY, nested([&] { (void)v->as<std::optional<Mem>>(); }))
V(optional_spec, ANY, nested([&] { (void)v->as<std::optional<Spec>>(); }))
V(optional_rvalue, ANY, nested([&] { (void)std::move(*v).as<std::optional<Spec>>(); }))
V(shared, ANY, nested([&] { (void)v->as<std::shared_ptr<Mem>>(); }))
V(shared_rvalue, ANY, nested([&] { (void)std::move(*v).as<std::shared_ptr<Spec>>(); }))
V(unique, ANY, nested([&] { (void)v->as<std::unique_ptr<Spec>>(); }))
V(unique_rvalue, ANY, nested([&] { (void)std::move(*v).as<std::unique_ptr<Mem>>(); }))
V(vector_member, NUL | BOO | STR | NUM | ARR, nested([&] { (void)v->as<Back<Mem>>(); }))
V(vector_spec, ARR, nested([&] { (void)v->as<Back<Spec>>(); }))
V(vector_rvalue, ARR, nested([&] { (void)std::move(*v).as<Back<Spec>>(); }))
V(list, ARR, nested([&] { (void)v->as<Place<Mem>>(); }))
V(map_member, OBJ, nested([&] { (void)v->as<Table<Mem>>(); }))
V(map_spec, OBJ, nested([&] { (void)v->as<Table<Spec>>(); }))
V(map_rvalue, OBJ, nested([&] { (void)std::move(*v).as<Table<Spec>>(); }))
V(array, ARR, nested([&] { (void)v->as<std::array<Mem, 2>>(); }))
V(array_rvalue, ARR, nested([&] { (void)std::move(*v).as<std::array<Spec, 2>>(); }))
V(pair, ARR, nested([&] { (void)v->as<std::pair<Mem, Spec>>(); }))
V(tuple, ARR, nested([&] { (void)v->as<std::tuple<Spec, Mem, Both>>(); }))
V(tuple_rvalue, ARR, nested([&] { (void)std::move(*v).as<std::tuple<Spec, Mem>>(); }))
V(variant, ANY, nested([&] { (void)v->as<std::variant<Mem, int>>(); }))
V(variant_second, ANY, nested([&] { (void)v->as<std::variant<std::nullptr_t, Spec>>(); }))
A(as_vector, nested([&] { (void)a->as<Back<Mem>>(); }))
A(as_vector_rvalue, nested([&] { (void)std::move(*a).as<Back<Spec>>(); }))
A(as_array, nested([&] { (void)a->as<std::array<Spec, 3>>(); }))
A(as_pair, nested([&] { (void)std::move(*a).as<std::pair<Spec, Mem>>(); }))
O(as_map, nested([&] { (void)o->as<Table<Spec>>(); }))
O(as_map_rvalue, nested([&] { (void)std::move(*o).as<Table<Mem>>(); }))
struct Holder
{
    Mem a;
    std::optional<Mem> b;
    MEO_JSONIZATION(a, MEO_OPT b);
};
V(field, OBJ, nested([&] { (void)v->as<Holder>(); }))
V(field_cast, OBJ, nested([&] { (void)static_cast<Holder>(*v); }))
