#pragma once
// User types and instances shared by the type-level checks and the API witness.
#ifdef VERIF_FS_PATH
#define MEOJSON_FS_PATH_EXTENSION
#include <filesystem>
#endif
#include <json.hpp>
#include <array>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <string_view>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>

namespace w
{
enum class Color
{
    red,
    green,
    blue,
    MEOJSON_ENUM_RANGE(red, blue)
};
enum Plain : int
{
    p0,
    p1
};
// conversions by members
struct Member
{
    int x = 0;
    json::value to_json() const { return json::value(x); }
    bool check_json(const json::value& v) const { return v.is_number(); }
    bool from_json(const json::value& v)
    {
        if (!v.is_number()) {
            return false;
        }
        x = v.as_integer();
        return true;
    }
};
// conversions by specialisation
struct Spec
{
    int x = 0;
};
// conversions by moving specialisation
struct MoveSpec
{
    std::string x;
};
// generated conversions
struct Gen
{
    int a = 0;
    std::string b;
    std::vector<int> c;
    MEO_JSONIZATION(a, MEO_OPT b, MEO_KEY("cc") c)
};
} // namespace w

namespace json::ext
{
template <>
class jsonization<w::Spec>
{
public:
    json::value to_json(const w::Spec& s) const { return json::value(s.x); }
    bool check_json(const json::value& v) const { return v.is_number(); }
    bool from_json(const json::value& v, w::Spec& s) const
    {
        if (!v.is_number()) {
            return false;
        }
        s.x = v.as_integer();
        return true;
    }
};
template <>
class jsonization<w::MoveSpec>
{
public:
    json::value to_json(const w::MoveSpec& s) const { return json::value(s.x); }
    json::value move_to_json(w::MoveSpec&& s) const { return json::value(std::move(s.x)); }
    bool check_json(const json::value& v) const { return v.is_string(); }
    bool from_json(const json::value& v, w::MoveSpec& s) const
    {
        if (!v.is_string()) {
            return false;
        }
        s.x = v.as_string();
        return true;
    }
    bool move_from_json(json::value&& v, w::MoveSpec& s) const
    {
        if (!v.is_string()) {
            return false;
        }
        s.x = v.as_string();
        return true;
    }
};
} // namespace json::ext
