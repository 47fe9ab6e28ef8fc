// Instantiates the public API: one function per group, never executed.
#define VERIF_FS_PATH
#include "types.h"
#include <fstream>
#include <sstream>

#define USED __attribute__((used))
#define NOINL __attribute__((noinline))

template <class T>
NOINL void sink(T&&);

template <class T>
USED void convert(json::value& v, const json::value& c)
{
    sink(c.is<T>());
    sink(c.all<T>());
    sink(static_cast<T>(c));
    sink(c.as<T>());
    sink(std::move(v).as<T>());
    sink(c.find<T>(1));
    sink(c.find<T>("k"));
}

template <class T>
USED void construct(const T& t, T& m)
{
    sink(json::value(t));
    sink(json::value(std::move(m)));
}

template <class D>
USED void get(const json::value& c, const json::array& a, const json::object& o, D d)
{
    const D& cd = d;
    sink(c.get("k", cd));
    sink(c.get(1, cd));
    sink(c.get("k", 1, "l", cd));
    sink(c.get(1, "k", 2, cd));
    sink(a.get(1, cd));
    sink(a.get(1, "k", cd));
    sink(o.get("k", cd));
    sink(o.get("k", 1, cd));
}

#define CONVERT(...) template void convert<__VA_ARGS__>(json::value&, const json::value&)
#define CONSTRUCT(...) template void construct<__VA_ARGS__>(const __VA_ARGS__&, __VA_ARGS__&)
#define BOTH(...) CONVERT(__VA_ARGS__); CONSTRUCT(__VA_ARGS__)
#define GET(...) template void get<__VA_ARGS__>(const json::value&, const json::array&, const json::object&, __VA_ARGS__)

using variant_t = std::variant<int, std::string>;
using pair_t = std::pair<int, std::string>;
using tuple_t = std::tuple<int, std::string, bool>;
using array3_t = std::array<int, 3>;
using map_t = std::map<std::string, int>;
using umap_t = std::unordered_map<std::string, int>;
using vmap_t = std::map<std::string, std::vector<int>>;

BOTH(bool);
BOTH(int);
BOTH(unsigned);
BOTH(long);
BOTH(unsigned long);
BOTH(long long);
BOTH(unsigned long long);
BOTH(float);
BOTH(double);
BOTH(long double);
BOTH(std::string);
BOTH(json::array);
BOTH(json::object);
BOTH(std::nullptr_t);
BOTH(std::monostate);
BOTH(w::Color);
BOTH(w::Plain);
BOTH(w::Member);
BOTH(w::Spec);
BOTH(w::MoveSpec);
BOTH(w::Gen);
BOTH(std::optional<int>);
BOTH(std::optional<std::string>);
BOTH(std::shared_ptr<int>);
BOTH(variant_t);
BOTH(std::vector<int>);
BOTH(std::vector<double>);
BOTH(std::vector<std::string>);
BOTH(std::vector<w::MoveSpec>);
BOTH(std::list<int>);
BOTH(std::deque<int>);
BOTH(std::set<std::string>);
BOTH(std::unordered_set<std::string>);
BOTH(array3_t);
BOTH(pair_t);
BOTH(tuple_t);
BOTH(map_t);
BOTH(umap_t);
BOTH(vmap_t);
BOTH(std::filesystem::path);
CONVERT(std::unique_ptr<int>);
GET(int);
GET(bool);
GET(double);
GET(std::string);
GET(std::string_view);
GET(const char*);
GET(json::value);
GET(json::array);
GET(json::object);
GET(std::vector<int>);
GET(map_t);

USED void parsing(const std::string& s, std::string_view sv, const char* p, std::istream& is, const std::filesystem::path& path, std::vector<char>& vec)
{
    sink(json::parse(s));
    sink(json::parse(sv));
    sink(json::parse(p));
    sink(json::parse(is));
    sink(json::parse(vec));
    sink(json::parsec(s));
    sink(json::parsec(sv));
    sink(json::parsec(p));
    sink(json::parsec(vec));
    sink(json::open(path));
    sink(json::open(s));
    sink(json::open(p));
    using namespace json::literals;
    sink("[1]"_json);
    sink("[1]"_jvalue);
    sink("[1]"_jarray);
    sink("{}"_jobject);
}

USED void const_value(const json::value& a, const json::value& b, const json::array& arr, const json::object& obj, std::ostream& os, const std::string& k, size_t n)
{
    sink(a.valid());
    sink(a.empty());
    sink(a.is_null());
    sink(a.is_number());
    sink(a.is_boolean());
    sink(a.is_string());
    sink(a.is_array());
    sink(a.is_object());
    sink(a.contains(k));
    sink(a.contains(n));
    sink(a.exists(k));
    sink(a.exists(n));
    sink(a.type());
    sink(a.type_name());
    sink(a.value_info());
    sink(a.at(n));
    sink(a.at(k));
    sink(a.find_value(n));
    sink(a.find_value(k));
    sink(a.find(n));
    sink(a.find(k));
    sink(a.as_boolean());
    sink(a.as_integer());
    sink(a.as_unsigned());
    sink(a.as_long());
    sink(a.as_unsigned_long());
    sink(a.as_long_long());
    sink(a.as_unsigned_long_long());
    sink(a.as_float());
    sink(a.as_double());
    sink(a.as_long_double());
    sink(a.as_string());
    sink(a.as_string_view());
    sink(a.as_array());
    sink(a.as_object());
    sink(a.dumps());
    sink(a.dumps(2));
    sink(a.to_string());
    sink(a.format());
    sink(a == b);
    sink(a != b);
    sink(a[n]);
    sink(a | obj);
    sink(a + arr);
    os << a << arr << obj;
    sink(json::value(a));
}

USED void const_array(const json::array& a, const json::array& b, size_t n)
{
    sink(a.empty());
    sink(a.size());
    sink(a.contains(n));
    sink(a.exists(n));
    sink(a.at(n));
    sink(a.to_string());
    sink(a.format());
    sink(a.dumps());
    sink(a.dumps(2));
    sink(a.find(n));
    sink(a.find_value(n));
    sink(a.begin() == a.end());
    sink(a.cbegin() == a.cend());
    sink(a.rbegin() == a.rend());
    sink(a.crbegin() == a.crend());
    sink(a[n]);
    sink(a + b);
    sink(a == b);
    sink(a != b);
    sink(json::array(a));
}

USED void const_object(const json::object& a, const json::object& b, const std::string& k)
{
    sink(a.empty());
    sink(a.size());
    sink(a.contains(k));
    sink(a.exists(k));
    sink(a.at(k));
    sink(a.to_string());
    sink(a.format());
    sink(a.dumps());
    sink(a.dumps(2));
    sink(a.find(k));
    sink(a.find_value(k));
    sink(a.begin() == a.end());
    sink(a.cbegin() == a.cend());
    sink(a | b);
    sink(a == b);
    sink(a != b);
    sink(json::object(a));
}

USED void mutate(json::value& v, json::value& o, json::array& a, json::array& a2, json::object& b, json::object& b2, std::string& k, size_t n)
{
    sink(v.erase(n));
    sink(v.erase(k));
    sink(v.as_array());
    sink(v.as_object());
    sink(v.emplace(1));
    sink(v.emplace("k", 1));
    v.clear();
    v = o;
    v = std::move(o);
    sink(v[n]);
    sink(v[k]);
    sink(v[std::move(k)]);
    sink(v | std::move(b));
    sink(std::move(v) | b);
    sink(std::move(v) | std::move(b));
    v |= b;
    v |= std::move(b);
    sink(v + std::move(a));
    sink(std::move(v) + a);
    sink(std::move(v) + std::move(a));
    v += a;
    v += std::move(a);
    a.clear();
    sink(a.erase(n));
    sink(a.erase(a.begin()));
    sink(a.emplace_back(1));
    sink(a.push_back("x"));
    a = a2;
    a = std::move(a2);
    a += a2;
    a += std::move(a2);
    sink(a + std::move(a2));
    sink(std::move(a) + a2);
    sink(std::move(a) + std::move(a2));
    sink(a[n]);
    sink(a.begin() == a.end());
    sink(a.rbegin() == a.rend());
    b.clear();
    sink(b.erase(k));
    sink(b.erase(b.begin()));
    sink(b.emplace("k", 1));
    sink(b.insert("k", "v"));
    b = b2;
    b = std::move(b2);
    b |= b2;
    b |= std::move(b2);
    sink(b | std::move(b2));
    sink(std::move(b) | b2);
    sink(std::move(b) | std::move(b2));
    sink(b[k]);
    sink(b[std::move(k)]);
}

USED void reflection(w::Color c, std::string_view s, w::Gen& g, const json::value& v, json::value& m)
{
    sink(json::_reflection::enum_to_string(c));
    sink(json::_reflection::string_to_enum<w::Color>(s));
    sink(g.to_json());
    sink(g.check_json(v));
    sink(g.from_json(v));
    sink(json::_utils::escape_string(s));
    sink(json::_utils::unescape_string(std::string(s)));
    sink(m.is<w::Gen>());
}
