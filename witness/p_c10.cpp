// Typed access and conversions of unknown values (C10); never executed.
#include "harness.h"

// ---------------------------------------------------------------- C10: typed access
#define NUMBER(name, T, expr)                                                                                              \
    H(c10_##name)                                                                                                          \
    {                                                                                                                      \
        Value v(1);                                                                                                        \
        T out {};                                                                                                          \
        Outcome o = attempt([&] { out = (expr); });                                                                        \
        must(o != OTHEREX, "a number access fails with another exception than json::exception");                           \
        must((o == DONE) == (v.is(NUM) && readable(1, #T)), "a number access succeeds exactly for numbers of the type");   \
        if (o == DONE) must(is_number(&out, 1, #T), "a number access gives the value of the whole text");                 \
        must(v.same(), "a number access leaves the value as it was");                                                      \
    }
NUMBER(as_integer, int, v->as_integer())
NUMBER(as_unsigned, unsigned int, v->as_unsigned())
NUMBER(as_long, long, v->as_long())
NUMBER(as_unsigned_long, unsigned long, v->as_unsigned_long())
NUMBER(as_long_long, long long, v->as_long_long())
NUMBER(as_unsigned_long_long, unsigned long long, v->as_unsigned_long_long())
NUMBER(as_float, float, v->as_float())
NUMBER(as_double, double, v->as_double())
NUMBER(as_long_double, long double, v->as_long_double())
NUMBER(cast_int, int, static_cast<int>(*v))
NUMBER(cast_unsigned, unsigned int, static_cast<unsigned>(*v))
NUMBER(cast_long, long, static_cast<long>(*v))
NUMBER(cast_unsigned_long, unsigned long, static_cast<unsigned long>(*v))
NUMBER(cast_long_long, long long, static_cast<long long>(*v))
NUMBER(cast_unsigned_long_long, unsigned long long, static_cast<unsigned long long>(*v))
NUMBER(cast_float, float, static_cast<float>(*v))
NUMBER(cast_double, double, static_cast<double>(*v))
NUMBER(cast_long_double, long double, static_cast<long double>(*v))
NUMBER(as_t_int, int, v->as<int>())
NUMBER(as_t_unsigned, unsigned int, v->as<unsigned>())
NUMBER(as_t_long, long, v->as<long>())
NUMBER(as_t_double, double, v->as<double>())
NUMBER(as_t_ull, unsigned long long, std::move(*v).as<unsigned long long>())
H(c10_as_boolean)
{
    Value v(1);
    bool b = false;
    Outcome o = attempt([&] { b = v->as_boolean(); });
    must(o != OTHEREX, "as_boolean fails with another exception than json::exception");
    must((o == DONE) == v.is(BOO), "as_boolean succeeds exactly for booleans");
    must(v.same(), "as_boolean leaves the value as it was");
}
H(c10_boolean_value)
{
    bool b = nd_bool();
    json::value v(b);
    must(v.is_boolean(), "a value made of a boolean is one");
    must(v.as_boolean() == b, "as_boolean gives back the boolean");
    must(static_cast<bool>(v) == b, "the cast gives back the boolean");
    must(v.as<bool>() == b, "as<bool> gives back the boolean");
}
H(c10_as_string)
{
    Value v(1);
    Raw<std::string> out;
    new (&out.v) std::string;
    Outcome o = attempt([&] { out.v = v->as_string(); });
    must(o != OTHEREX, "as_string fails with another exception than json::exception");
    must((o == DONE) == v.is(STR), "as_string succeeds exactly for strings");
    if (o == DONE) must(same_string(&out.v, 1), "as_string gives the text");
    must(v.same(), "as_string leaves the value as it was");
    out.v.~basic_string();
}
H(c10_cast_string)
{
    Value v(1);
    std::string out;
    Outcome o = attempt([&] { out = static_cast<std::string>(*v); });
    must(o != OTHEREX, "the cast to string fails with another exception than json::exception");
    must((o == DONE) == v.is(STR), "the cast to string succeeds exactly for strings");
    if (o == DONE) must(same_string(&out, 1), "the cast to string gives the text");
}
H(c10_as_t_string)
{
    Value v(1);
    std::string out;
    Outcome o = attempt([&] { out = v->as<std::string>(); });
    must(o != OTHEREX, "as<string> fails with another exception than json::exception");
    must((o == DONE) == v.is(STR), "as<string> succeeds exactly for strings");
    if (o == DONE) must(same_string(&out, 1), "as<string> gives the text");
}
H(c10_as_string_view)
{
    Value v(1);
    std::string_view out;
    Outcome o = attempt([&] { out = v->as_string_view(); });
    must(o != OTHEREX, "as_string_view fails with another exception than json::exception");
    must((o == DONE) == v.is(STR), "as_string_view succeeds exactly for strings");
    if (o == DONE) must(same_view(&out, 1), "as_string_view gives the text");
    must(v.same(), "as_string_view leaves the value as it was");
}
H(c10_as_array_const)
{
    Value v(1);
    const json::array* out = nullptr;
    Outcome o = attempt([&] { out = &std::as_const(*v).as_array(); });
    must(o != OTHEREX, "as_array const fails with another exception than json::exception");
    must((o == DONE) == v.is(ARR), "as_array const succeeds exactly for arrays");
    if (o == DONE) must(same_array(out, 1), "as_array const gives the elements");
    must(v.same(), "as_array const leaves the value as it was");
}
H(c10_as_object_const)
{
    Value v(1);
    const json::object* out = nullptr;
    Outcome o = attempt([&] { out = &std::as_const(*v).as_object(); });
    must(o != OTHEREX, "as_object const fails with another exception than json::exception");
    must((o == DONE) == v.is(OBJ), "as_object const succeeds exactly for objects");
    if (o == DONE) must(same_object(out, 1), "as_object const gives the members");
    must(v.same(), "as_object const leaves the value as it was");
}
H(c10_cast_array)
{
    Value v(1);
    Outcome o = attempt([&] { json::array out(static_cast<json::array>(*v)); must(same_array(&out, 1), "the cast to array gives the elements"); });
    must(o != OTHEREX, "the cast to array fails with another exception than json::exception");
    must((o == DONE) == v.is(ARR), "the cast to array succeeds exactly for arrays");
    must(v.same(), "the cast to array leaves the value as it was");
}
H(c10_cast_object)
{
    Value v(1);
    Outcome o = attempt([&] { json::object out(static_cast<json::object>(*v)); must(same_object(&out, 1), "the cast to object gives the members"); });
    must(o != OTHEREX, "the cast to object fails with another exception than json::exception");
    must((o == DONE) == v.is(OBJ), "the cast to object succeeds exactly for objects");
    must(v.same(), "the cast to object leaves the value as it was");
}
static bool emptyish(Value& v) { return v.is(NUL) || (v.is(STR | ARR | OBJ) && is_empty(1)); }
H(c10_as_array)
{
    Value v(1);
    json::array* out = nullptr;
    Outcome o = attempt([&] { out = &v->as_array(); });
    must(o != OTHEREX, "as_array fails with another exception than json::exception");
    must((o == DONE) == (v.is(ARR) || emptyish(v)), "as_array succeeds exactly for arrays and empty values");
    must(consistent(&*v), "as_array leaves a value whose type and content agree");
    if (o == DONE) {
        must(v->is_array(), "as_array makes an empty value an array");
        must(out == &std::as_const(*v).as_array(), "as_array gives the array of the value");
        if (v.is(ARR)) must(same_array(out, 1), "as_array keeps the elements");
        else must(out->empty(), "as_array makes an empty value an empty array");
    }
    else must(v.same(), "a failed as_array leaves the value as it was");
}
H(c10_as_object)
{
    Value v(1);
    json::object* out = nullptr;
    Outcome o = attempt([&] { out = &v->as_object(); });
    must(o != OTHEREX, "as_object fails with another exception than json::exception");
    must((o == DONE) == (v.is(OBJ) || emptyish(v)), "as_object succeeds exactly for objects and empty values");
    must(consistent(&*v), "as_object leaves a value whose type and content agree");
    if (o == DONE) {
        must(v->is_object(), "as_object makes an empty value an object");
        must(out == &std::as_const(*v).as_object(), "as_object gives the object of the value");
        if (v.is(OBJ)) must(same_object(out, 1), "as_object keeps the members");
        else must(out->empty(), "as_object makes an empty value an empty object");
    }
    else must(v.same(), "a failed as_object leaves the value as it was");
}
template <class K> static void keyed(K key)
{
    Value v(1);
    json::value* out = nullptr;
    Outcome o = attempt([&] { out = &(*v)[static_cast<K&&>(key)]; });
    must(o != OTHEREX, "operator[] fails with another exception than json::exception");
    must((o == DONE) == (v.is(OBJ) || emptyish(v)), "operator[] succeeds exactly for objects and empty values");
    must(consistent(&*v), "operator[] leaves a value whose type and content agree");
    if (o == DONE) {
        must(v->is_object(), "operator[] makes an empty value an object");
        if (v.is(OBJ) && has_key(1, 2)) must(is_member(out, 1, 2), "operator[] gives the member that is there");
        else must(out->is_null(), "operator[] gives a new null member");
    }
    else must(v.same(), "a failed operator[] leaves the value as it was");
}
H(c10_key_const) { Text k(2); keyed<const std::string&>(*k); }
H(c10_key_move) { Text k(2); keyed<std::string&&>(std::move(*k)); }
H(c10_null)
{
    Value v(1);
    Outcome o = attempt([&] { (void)static_cast<std::nullptr_t>(*v); });
    must(o != OTHEREX && (o == DONE) == v.is(NUL), "the cast to nullptr_t succeeds exactly for null");
    o = attempt([&] { (void)static_cast<std::monostate>(*v); });
    must(o != OTHEREX && (o == DONE) == v.is(NUL), "the cast to monostate succeeds exactly for null");
    must(v.same(), "a cast leaves the value as it was");
}
// ---------------------------------------------------------------- composed types
template <class T, class F, class G> static void shaped(F make, bool expected, G judge)
{
    Text s(2);
    attempt([&] {
        json::value v(make(*s));
        Outcome o = attempt([&] {
            T t = std::as_const(v).template as<T>();
            must(judge(t, *s), "as<T> gives the content of the elements");
        });
        must(o != OTHEREX, "as<T> fails with another exception than json::exception");
        must((o == DONE) == expected, "as<T> succeeds exactly when every element has the type asked for");
        o = attempt([&] { T t = std::move(v).template as<T>(); must(judge(t, *s), "as<T> gives the content of the elements"); });
        must(o != OTHEREX, "as<T> fails with another exception than json::exception");
        must((o == DONE) == expected, "as<T> succeeds exactly when every element has the type asked for");
    });
}
using Pair_ = std::pair<std::string, bool>;
using Triple_ = std::tuple<std::string, bool, std::string>;
using Fixed_ = std::array<std::string, 2>;
using Bools_ = std::vector<bool>;
using Map_ = std::map<std::string, bool>;
#define SHAPE(name, T, made, expected, judged)                                                        \
    H(c10_shape_##name) { shaped<T>([](const std::string& s) { (void)s; return made; }, expected, [](const T& t, const std::string& s) { (void)t; (void)s; return judged; }); }
#define LIST(...) json::array({ __VA_ARGS__ })
#define V_(x) json::value(x)
SHAPE(pair, Pair_, LIST(V_(s), V_(true)), true, t.first == s && t.second)
SHAPE(pair_swapped, Pair_, LIST(V_(true), V_(s)), false, true)
SHAPE(pair_second, Pair_, LIST(V_(s), V_(s)), false, true)
SHAPE(pair_short, Pair_, LIST(V_(s)), false, true)
SHAPE(pair_long, Pair_, LIST(V_(s), V_(true), V_(s)), false, true)
SHAPE(pair_object, Pair_, json::object(), false, true)
SHAPE(triple, Triple_, LIST(V_(s), V_(true), V_("end")), true, std::get<0>(t) == s && std::get<1>(t) && std::get<2>(t) == "end")
SHAPE(triple_last, Triple_, LIST(V_(s), V_(true), V_(true)), false, true)
SHAPE(triple_short, Triple_, LIST(V_(s), V_(true)), false, true)
SHAPE(fixed, Fixed_, LIST(V_(s), V_("end")), true, t[0] == s && t[1] == "end")
SHAPE(fixed_short, Fixed_, LIST(V_(s)), false, true)
SHAPE(fixed_long, Fixed_, LIST(V_(s), V_(s), V_(s)), false, true)
SHAPE(fixed_mixed, Fixed_, LIST(V_(s), V_(true)), false, true)
SHAPE(vector, Bools_, LIST(V_(true), V_(false)), true, t.size() == 2 && t[0] && !t[1])
SHAPE(vector_last, Bools_, LIST(V_(true), V_(s)), false, true)
SHAPE(vector_object, Bools_, json::object(), false, true)
SHAPE(map_array, Map_, json::array(), false, true)
template <class F> static void variant_access(F get)
{
    using T = std::variant<std::string, bool, json::array>;
    Value v(1);
    Outcome o = attempt([&] {
        T t = get(*v);
        if (v.is(STR)) must(t.index() == 0, "as<variant> gives the alternative of the type of the value");
        if (v.is(BOO)) must(t.index() == 1, "as<variant> gives the alternative of the type of the value");
        if (v.is(ARR)) {
            must(t.index() == 2, "as<variant> gives the alternative of the type of the value");
            must(same_array(&std::get<2>(t), 1), "as<variant> gives the content of the value");
        }
    });
    must(o != OTHEREX, "as<variant> fails with another exception than json::exception");
    must((o == DONE) == v.is(STR | BOO | ARR), "as<variant> succeeds exactly when one of the alternatives fits");
}
H(c10_variant) { variant_access([](json::value& v) { return std::as_const(v).as<std::variant<std::string, bool, json::array>>(); }); }
H(c10_variant_move) { variant_access([](json::value& v) { return std::move(v).as<std::variant<std::string, bool, json::array>>(); }); }
H(c10_variant_cast) { variant_access([](json::value& v) { return static_cast<std::variant<std::string, bool, json::array>>(v); }); }
using Var_ = std::variant<Bools_, Pair_, std::string>;
SHAPE(variant_first, Var_, LIST(V_(true)), true, t.index() == 0 && std::get<0>(t).size() == 1)
SHAPE(variant_second, Var_, LIST(V_(s), V_(true)), true, t.index() == 1 && std::get<1>(t).first == s)
SHAPE(variant_none, Var_, LIST(V_(s), V_(s)), false, true)
