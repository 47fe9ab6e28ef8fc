// Every operation that changes a value, with allocations that may fail (C09); never executed.
#include "harness.h"
// the operands are made first; then one allocation of the operation may fail
#define CHANGE(name, Holder, setup, body)                                                                                  \
    H(c09_##name)                                                                                                          \
    {                                                                                                                      \
        Holder holder(1);                                                                                                  \
        auto& v = *holder;                                                                                                 \
        setup;                                                                                                             \
        failing(true);                                                                                                     \
        Outcome o = attempt([&] { body; });                                                                                \
        failing(false);                                                                                                    \
        must(o != OTHEREX || allocation_failed(), "an operation fails with another exception than json::exception");       \
        must(consistent(&v), "after an operation, type and content of the value agree");                                   \
        after(v);                                                                                                          \
    }
// what is left can be queried, copied and assigned
static void after(json::value& v)
{
    must(attempt([&] {
        (void)v.empty();
        json::value c(std::as_const(v));
        must(consistent(&c), "the copy of a value after an operation is one");
        (void)v.is_array();
        v = json::value(true);
        must(consistent(&v) && v.is_boolean(), "a value can be assigned after an operation");
    }) == DONE, "a value can be used after an operation");
}
static void after(json::array& v)
{
    must(attempt([&] {
        (void)v.empty();
        json::array c(std::as_const(v));
        v = json::array();
        must(v.empty(), "an array can be assigned after an operation");
    }) == DONE, "an array can be used after an operation");
}
static void after(json::object& v)
{
    must(attempt([&] {
        (void)v.empty();
        json::object c(std::as_const(v));
        v = json::object();
        must(v.empty(), "an object can be assigned after an operation");
    }) == DONE, "an object can be used after an operation");
}
#define NONE
#define VALUE(name, setup, body) CHANGE(value_##name, Value, setup, body)
#define ARRAY(name, setup, body) CHANGE(array_##name, Array, setup, body)
#define OBJECT(name, setup, body) CHANGE(object_##name, Object, setup, body)
#define V2 Value w(2)
#define A2 Array w(2)
#define O2 Object w(2)
#define T2 Text w(2)
#define OK2 must(consistent(&*w), "after an operation, type and content of its operand agree")
using S = std::string;
VALUE(copy, V2, v = std::as_const(*w); OK2)
VALUE(move, V2, v = std::move(*w); OK2)
VALUE(self, NONE, v = std::as_const(v))
VALUE(self_move, NONE, v = std::move(v))
VALUE(copy_construct, NONE, json::value c(std::as_const(v)); must(consistent(&c), "the copy of a value is one"))
VALUE(move_construct, NONE, json::value c(std::move(v)); must(consistent(&c), "a value that was moved is one"))
VALUE(from_string, T2, v = *w)
VALUE(from_string_move, T2, v = std::move(*w))
VALUE(from_view, T2, v = std::string_view(*w))
VALUE(from_literal, NONE, v = "a text that does not fit into the object itself")
VALUE(from_bool, NONE, v = nd_bool())
VALUE(from_null, NONE, v = nullptr)
VALUE(from_array, A2, v = std::as_const(*w))
VALUE(from_array_move, A2, v = std::move(*w))
VALUE(from_object, O2, v = std::as_const(*w))
VALUE(from_object_move, O2, v = std::move(*w))
VALUE(from_optional, std::optional<S> w, v = w)
VALUE(from_list, V2, v = json::array({ *w, *w }))
VALUE(clear, NONE, v.clear())
VALUE(as_array, NONE, v.as_array())
VALUE(as_object, NONE, v.as_object())
VALUE(index_key, T2, v[*w])
VALUE(index_key_move, T2, v[std::move(*w)])
VALUE(index_assign, T2; Value x(3), v[*w] = std::as_const(*x))
VALUE(index_assign_move, T2; Value x(3), v[*w] = std::move(*x))
VALUE(index_pos, size_t n = nd_size(2), if (v.is_array() && in_range(1, n)) v[n] = json::value("x"))
VALUE(erase_key, T2, v.erase(*w))
VALUE(erase_pos, size_t n = nd_size(2), v.erase(n))
VALUE(emplace_element, V2, v.emplace(std::as_const(*w)))
VALUE(emplace_element_move, V2, v.emplace(std::move(*w)))
VALUE(emplace_string, T2, v.emplace(*w))
VALUE(emplace_member, V2, v.emplace("key", std::as_const(*w)))
VALUE(emplace_member_move, T2; Value x(3), v.emplace(std::move(*w), std::move(*x)))
VALUE(concat, A2, auto r = v + std::as_const(*w); must(consistent(&r), "the result of + is a value"); OK2)
VALUE(concat_move, A2, auto r = v + std::move(*w); must(consistent(&r), "the result of + is a value"); OK2)
VALUE(concat_rvalue, A2, auto r = std::move(v) + std::as_const(*w); must(consistent(&r), "the result of + is a value"); OK2)
VALUE(concat_rvalue_move, A2, auto r = std::move(v) + std::move(*w); must(consistent(&r), "the result of + is a value"); OK2)
VALUE(concat_into, A2, v += std::as_const(*w); OK2)
VALUE(concat_into_move, A2, v += std::move(*w); OK2)
VALUE(merge, O2, auto r = v | std::as_const(*w); must(consistent(&r), "the result of | is a value"); OK2)
VALUE(merge_move, O2, auto r = v | std::move(*w); must(consistent(&r), "the result of | is a value"); OK2)
VALUE(merge_rvalue, O2, auto r = std::move(v) | std::as_const(*w); must(consistent(&r), "the result of | is a value"); OK2)
VALUE(merge_rvalue_move, O2, auto r = std::move(v) | std::move(*w); must(consistent(&r), "the result of | is a value"); OK2)
VALUE(merge_into, O2, v |= std::as_const(*w); OK2)
VALUE(merge_into_move, O2, v |= std::move(*w); OK2)
VALUE(as_t_string, NONE, (void)std::move(v).as<S>())
VALUE(as_t_array, NONE, (void)std::move(v).as<json::array>())
VALUE(as_t_object, NONE, (void)std::move(v).as<json::object>())
VALUE(as_t_value, NONE, (void)std::move(v).as<json::value>())
VALUE(as_t_optional, NONE, (void)std::move(v).as<std::optional<S>>())
VALUE(as_t_shared, NONE, (void)std::move(v).as<std::shared_ptr<S>>())
VALUE(as_t_unique, NONE, (void)std::move(v).as<std::unique_ptr<S>>())
VALUE(as_t_fixed, NONE, (void)(std::move(v).as<std::array<json::value, 2>>()))
VALUE(as_t_tuple, NONE, (void)(std::move(v).as<std::tuple<json::value, S>>()))
VALUE(as_t_pair, NONE, (void)(std::move(v).as<std::pair<S, json::value>>()))
VALUE(as_t_variant, NONE, (void)(std::move(v).as<std::variant<S, json::array>>()))
VALUE(cast_string, NONE, (void)static_cast<S>(v))
VALUE(cast_array, NONE, (void)static_cast<json::array>(v))
VALUE(cast_object, NONE, (void)static_cast<json::object>(v))
VALUE(swap, V2, std::swap(v, *w); OK2)
VALUE(get, T2, (void)v.get(*w, S("d")))
VALUE(find, T2, (void)v.find<S>(*w))

ARRAY(copy, A2, v = std::as_const(*w))
ARRAY(move, A2, v = std::move(*w))
ARRAY(copy_construct, NONE, json::array c(std::as_const(v)))
ARRAY(to_value, NONE, json::value c(std::as_const(v)); must(consistent(&c), "a value made of an array is one"))
ARRAY(to_value_move, NONE, json::value c(std::move(v)); must(consistent(&c), "a value made of an array is one"))
ARRAY(emplace_back, V2, v.emplace_back(std::as_const(*w)); OK2)
ARRAY(emplace_back_move, V2, v.emplace_back(std::move(*w)); OK2)
ARRAY(emplace_back_string, T2, v.emplace_back(*w))
ARRAY(push_back, V2, v.push_back(std::as_const(*w)); OK2)
ARRAY(push_back_move, V2, v.push_back(std::move(*w)); OK2)
ARRAY(erase, size_t n = nd_size(2), v.erase(n))
ARRAY(clear, NONE, v.clear())
ARRAY(concat, A2, auto r = v + std::as_const(*w))
ARRAY(concat_move, A2, auto r = v + std::move(*w))
ARRAY(concat_rvalue, A2, auto r = std::move(v) + std::as_const(*w))
ARRAY(concat_rvalue_move, A2, auto r = std::move(v) + std::move(*w))
ARRAY(concat_into, A2, v += std::as_const(*w))
ARRAY(concat_into_move, A2, v += std::move(*w))
ARRAY(as_fixed, NONE, (void)(std::move(v).as<std::array<json::value, 2>>()))
ARRAY(as_tuple, NONE, (void)(std::move(v).as<std::tuple<json::value, S>>()))

OBJECT(copy, O2, v = std::as_const(*w))
OBJECT(move, O2, v = std::move(*w))
OBJECT(copy_construct, NONE, json::object c(std::as_const(v)))
OBJECT(to_value, NONE, json::value c(std::as_const(v)); must(consistent(&c), "a value made of an object is one"))
OBJECT(to_value_move, NONE, json::value c(std::move(v)); must(consistent(&c), "a value made of an object is one"))
OBJECT(index, T2, v[*w])
OBJECT(index_move, T2, v[std::move(*w)])
OBJECT(index_assign, T2; Value x(3), v[*w] = std::as_const(*x))
OBJECT(emplace, T2; Value x(3), v.emplace(*w, std::as_const(*x)))
OBJECT(emplace_move, T2; Value x(3), v.emplace(std::move(*w), std::move(*x)))
OBJECT(insert, T2; Value x(3), v.insert(*w, *x))
OBJECT(erase, T2, v.erase(*w))
OBJECT(clear, NONE, v.clear())
OBJECT(merge, O2, auto r = v | std::as_const(*w))
OBJECT(merge_move, O2, auto r = v | std::move(*w))
OBJECT(merge_rvalue, O2, auto r = std::move(v) | std::as_const(*w))
OBJECT(merge_rvalue_move, O2, auto r = std::move(v) | std::move(*w))
OBJECT(merge_into, O2, v |= std::as_const(*w))
OBJECT(merge_into_move, O2, v |= std::move(*w))
