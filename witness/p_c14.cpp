// Every const operation on a value that is only read (C14); never executed.
#include "harness.h"
#define READ(name, Holder, T, body)                                                                   \
    H(c14_##name)                                                                                     \
    {                                                                                                 \
        Holder holder(1);                                                                             \
        const T& v = *holder;                                                                         \
        freeze(&v);                                                                                   \
        attempt([&] { body; });                                                                       \
        thaw(&v);                                                                                     \
        must(holder.same(), "a read-only operation leaves what it reads as it was");                  \
    }
#define VALUE(name, body) READ(value_##name, Value, json::value, body)
#define ARRAY(name, body) READ(array_##name, Array, json::array, body)
#define OBJECT(name, body) READ(object_##name, Object, json::object, body)
#define USE(x) (void)(x)
using S = std::string;
VALUE(type, USE(v.valid()); USE(v.empty()); USE(v.type()))
VALUE(is, USE(v.is_null()); USE(v.is_number()); USE(v.is_boolean()); USE(v.is_string()); USE(v.is_array()); USE(v.is_object()))
VALUE(is_value, USE(v.is<json::value>()))
VALUE(is_bool, USE(v.is<bool>()))
VALUE(is_int, USE(v.is<int>()))
VALUE(is_ull, USE(v.is<unsigned long long>()))
VALUE(is_double, USE(v.is<double>()))
VALUE(is_string_t, USE(v.is<S>()))
VALUE(is_array_t, USE(v.is<json::array>()))
VALUE(is_object_t, USE(v.is<json::object>()))
VALUE(is_vector, USE(v.is<std::vector<int>>()))
VALUE(is_map, USE((v.is<std::map<S, int>>())))
VALUE(is_optional, USE(v.is<std::optional<int>>()))
VALUE(is_tuple, USE((v.is<std::tuple<int, S>>())))
VALUE(is_pair, USE((v.is<std::pair<bool, S>>())))
VALUE(is_fixed, USE((v.is<std::array<S, 2>>())))
VALUE(is_variant, USE((v.is<std::variant<int, S>>())))
VALUE(all, USE(v.all<S>()))
VALUE(contains_key, Text k(2); USE(v.contains(*k)); USE(v.exists(*k)))
VALUE(contains_pos, size_t n = nd_size(2); USE(v.contains(n)); USE(v.exists(n)))
VALUE(type_name, USE(v.type_name()))
VALUE(value_info, USE(v.value_info()))
VALUE(at_pos, USE(v.at(nd_size(2))))
VALUE(at_key, Text k(2); USE(v.at(*k)))
VALUE(index_pos, size_t n = nd_size(2); if (!v.is_array() || in_range(1, n)) USE(v[n]))
VALUE(get_key, Text k(2); USE(v.get(*k, 1)))
VALUE(get_key_string, Text k(2); USE(v.get(*k, S("d"))))
VALUE(get_key_value, Text k(2); USE(v.get(*k, json::value())))
VALUE(get_pos, USE(v.get(nd_size(2), 1)))
VALUE(get_two, Text k(2); USE(v.get(*k, nd_size(3), S("d"))))
VALUE(find_key, Text k(2); USE(v.find(*k)))
VALUE(find_key_int, Text k(2); USE(v.find<int>(*k)))
VALUE(find_key_string, Text k(2); USE(v.find<S>(*k)))
VALUE(find_pos, USE(v.find(nd_size(2))))
VALUE(find_pos_string, USE(v.find<S>(nd_size(2))))
VALUE(find_value_key, Text k(2); USE(v.find_value(*k)))
VALUE(find_value_pos, USE(v.find_value(nd_size(2))))
VALUE(as_boolean, USE(v.as_boolean()))
VALUE(as_integer, USE(v.as_integer()))
VALUE(as_unsigned, USE(v.as_unsigned()))
VALUE(as_long, USE(v.as_long()))
VALUE(as_unsigned_long, USE(v.as_unsigned_long()))
VALUE(as_long_long, USE(v.as_long_long()))
VALUE(as_unsigned_long_long, USE(v.as_unsigned_long_long()))
VALUE(as_float, USE(v.as_float()))
VALUE(as_double, USE(v.as_double()))
VALUE(as_long_double, USE(v.as_long_double()))
VALUE(as_string, USE(v.as_string()))
VALUE(as_string_view, USE(v.as_string_view()))
VALUE(as_array, USE(v.as_array()))
VALUE(as_object, USE(v.as_object()))
VALUE(as_t_value, USE(v.as<json::value>()))
VALUE(as_t_bool, USE(v.as<bool>()))
VALUE(as_t_int, USE(v.as<int>()))
VALUE(as_t_double, USE(v.as<double>()))
VALUE(as_t_string, USE(v.as<S>()))
VALUE(as_t_view, USE(v.as<std::string_view>()))
VALUE(as_t_array, USE(v.as<json::array>()))
VALUE(as_t_object, USE(v.as<json::object>()))
VALUE(as_t_null, USE(v.as<std::nullptr_t>()))
VALUE(as_t_optional, USE(v.as<std::optional<S>>()))
VALUE(as_t_shared, USE(v.as<std::shared_ptr<S>>()))
VALUE(as_t_unique, USE(v.as<std::unique_ptr<S>>()))
VALUE(as_t_values, USE(v.as<std::vector<json::value>>()))
VALUE(as_t_fixed, USE((v.as<std::array<json::value, 2>>())))
VALUE(as_t_fixed_strings, USE((v.as<std::array<S, 2>>())))
VALUE(as_t_tuple, USE((v.as<std::tuple<json::value, S>>())))
VALUE(as_t_pair, USE((v.as<std::pair<S, bool>>())))
VALUE(as_t_variant, USE((v.as<std::variant<bool, S, json::array>>())))
VALUE(cast_bool, USE(static_cast<bool>(v)))
VALUE(cast_int, USE(static_cast<int>(v)))
VALUE(cast_double, USE(static_cast<double>(v)))
VALUE(cast_string, USE(static_cast<S>(v)))
VALUE(cast_view, USE(static_cast<std::string_view>(v)))
VALUE(cast_array, USE(static_cast<json::array>(v)))
VALUE(cast_object, USE(static_cast<json::object>(v)))
VALUE(cast_monostate, USE(static_cast<std::monostate>(v)))
VALUE(cast_optional, USE(static_cast<std::optional<S>>(v)))
VALUE(equal, Value w(2); freeze(&*w); USE(v == std::as_const(*w)); USE(v != std::as_const(*w)); thaw(&*w); must(w.same(), "== leaves the other value as it was"))
VALUE(copy, json::value c(v); must(apart(&c, &v), "a copy shares nothing with the original"))
VALUE(copy_assign, Value w(2); *w = v; must(apart(&*w, &v), "a copy shares nothing with the original"))
VALUE(merge, Object o(2); USE(v | std::as_const(*o)))
VALUE(merge_move, Object o(2); USE(v | std::move(*o)))
VALUE(concat, Array a(2); USE(v + std::as_const(*a)))
VALUE(concat_move, Array a(2); USE(v + std::move(*a)))
VALUE(in_list, USE(json::array({ v, v })))
VALUE(push, Array a(2); a->push_back(v); must(apart(&*a, &v), "an element is a copy"))
VALUE(insert, Object o(2); Text k(3); (*o)[*k] = v; must(apart(&*o, &v), "a member is a copy"))

ARRAY(size, USE(v.empty()); USE(v.size()))
ARRAY(contains, size_t n = nd_size(2); USE(v.contains(n)); USE(v.exists(n)))
ARRAY(at, USE(v.at(nd_size(2))))
ARRAY(index, size_t n = nd_size(2); if (in_range(1, n)) USE(v[n]))
ARRAY(all, USE(v.all<S>()))
ARRAY(get, USE(v.get(nd_size(2), 1)))
ARRAY(get_string, USE(v.get(nd_size(2), S("d"))))
ARRAY(get_two, Text k(3); USE(v.get(nd_size(2), *k, S("d"))))
ARRAY(find, USE(v.find(nd_size(2))))
ARRAY(find_string, USE(v.find<S>(nd_size(2))))
ARRAY(find_value, USE(v.find_value(nd_size(2))))
ARRAY(iterate, for (const auto& e : v) USE(e.is_null()))
ARRAY(iterate_c, for (auto i = v.cbegin(); i != v.cend(); ++i) USE(i->is_null()))
ARRAY(concat, Array b(2); freeze(&*b); USE(v + std::as_const(*b)); thaw(&*b); must(b.same(), "+ leaves the right operand as it was"))
ARRAY(concat_move, Array b(2); USE(v + std::move(*b)))
ARRAY(concat_into, Array b(2); *b += v)
ARRAY(equal, Array b(2); USE(v == std::as_const(*b)); USE(v != std::as_const(*b)))
ARRAY(as_fixed, USE((v.as<std::array<S, 2>>())))
ARRAY(as_tuple, USE((v.as<std::tuple<json::value, S>>())))
ARRAY(as_pair, USE((v.as<std::pair<S, bool>>())))
ARRAY(copy, json::array c(v); must(apart(&c, &v), "a copy shares nothing with the original"))
ARRAY(copy_assign, Array w(2); *w = v; must(apart(&*w, &v), "a copy shares nothing with the original"))
ARRAY(to_value, json::value c(v); must(apart(&c, &v), "a value made of an array is a copy"))

OBJECT(size, USE(v.empty()); USE(v.size()))
OBJECT(contains, Text k(2); USE(v.contains(*k)); USE(v.exists(*k)))
OBJECT(at, Text k(2); USE(v.at(*k)))
OBJECT(all, USE(v.all<S>()))
OBJECT(get, Text k(2); USE(v.get(*k, 1)))
OBJECT(get_string, Text k(2); USE(v.get(*k, S("d"))))
OBJECT(get_two, Text k(2); USE(v.get(*k, nd_size(3), S("d"))))
OBJECT(find, Text k(2); USE(v.find(*k)))
OBJECT(find_string, Text k(2); USE(v.find<S>(*k)))
OBJECT(find_value, Text k(2); USE(v.find_value(*k)))
OBJECT(iterate, for (const auto& [k, e] : v) { USE(k.size()); USE(e.is_null()); })
OBJECT(iterate_c, for (auto i = v.cbegin(); i != v.cend(); ++i) USE(i->second.is_null()))
OBJECT(merge, Object o(2); freeze(&*o); USE(v | std::as_const(*o)); thaw(&*o); must(o.same(), "| leaves the right operand as it was"))
OBJECT(merge_move, Object o(2); USE(v | std::move(*o)))
OBJECT(merge_into, Object o(2); *o |= v)
OBJECT(equal, Object o(2); USE(v == std::as_const(*o)); USE(v != std::as_const(*o)))
OBJECT(copy, json::object c(v); must(apart(&c, &v), "a copy shares nothing with the original"))
OBJECT(copy_assign, Object w(2); *w = v; must(apart(&*w, &v), "a copy shares nothing with the original"))
OBJECT(to_value, json::value c(v); must(apart(&c, &v), "a value made of an object is a copy"))
OBJECT(as_map, USE((v.as<std::map<S, json::value>>())))
