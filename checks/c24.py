"""C24: type-level witnesses. The rows are decided by the type checker alone (static_assert on traits),
the snippets by whether the front end accepts them."""
import os
from vlib import *

CHARS = ["char", "wchar_t", "char16_t", "char32_t"]
REFS = ["", "&", "&&"]

# every type a value converts to
TARGETS = [
    "bool", "int", "unsigned", "long", "unsigned long", "long long", "unsigned long long", "float", "double", "long double",
    "std::string", "std::string_view", "json::array", "json::object", "std::nullptr_t", "std::monostate",
    "w::Color", "w::Plain", "w::Member", "w::Spec", "w::MoveSpec", "w::Gen",
    "std::optional<int>", "std::optional<std::string>", "std::shared_ptr<int>", "std::unique_ptr<int>", "std::unique_ptr<std::string>",
    "std::variant<int, std::string>", "std::vector<int>", "std::vector<std::string>", "std::list<int>", "std::deque<int>", "std::set<std::string>",
    "std::unordered_set<std::string>", "std::array<int, 3>", "std::pair<int, std::string>", "std::tuple<int, std::string, bool>",
    "std::map<std::string, int>", "std::unordered_map<std::string, int>", "std::map<std::string, std::vector<int>>",
]
# other types an implicit conversion must not reach either, through one of the operators
REACHED = ["char", "signed char", "unsigned char", "short", "unsigned short", "wchar_t", "char16_t", "char32_t", "const void*", "const char*",
           "std::size_t", "std::ptrdiff_t"]
SOURCES = ["json::value", "json::value&", "const json::value", "const json::value&"]
RVALUES = ["json::value", "json::value&&", "const json::value", "const json::value&&"]
ARRAY_TARGETS = ["std::vector<int>", "std::array<int, 3>", "std::pair<int, std::string>", "std::tuple<int, std::string, bool>"]
OBJECT_TARGETS = ["std::map<std::string, int>", "std::unordered_map<std::string, int>"]


def rows(fs):
    out = []
    for c in CHARS:
        for cv in ["", "const "]:
            for r in REFS:
                t = cv + c + r
                out.append(("a value cannot be constructed from %s" % t, "!std::is_constructible_v<json::value, %s>" % t, "include/common/value.hpp"))
                out.append(("no implicit conversion of %s to a value" % t, "!std::is_convertible_v<%s, json::value>" % t, "include/common/value.hpp"))
                out.append(("%s cannot be assigned to a value" % t, "!std::is_assignable_v<json::value&, %s>" % t, "include/common/value.hpp"))
    targets = list(TARGETS)
    if fs:
        targets.append("std::filesystem::path")
    for t in targets + REACHED:
        for s in SOURCES:
            if t == "std::string_view" and "&" not in s:
                continue
            out.append(("conversion of %s to %s is not implicit" % (s, t), "!std::is_convertible_v<%s, %s>" % (s, t), "include/common/value.hpp"))
        out.append(("a value is not assigned implicitly to %s" % t, "!std::is_convertible_v<const json::value&, %s> && !w::implicit_call<const json::value&, %s>" % (t, t), "include/common/value.hpp"))
    for s in RVALUES:
        out.append(("a string_view cannot be taken from an rvalue (%s)" % s, "!std::is_constructible_v<std::string_view, %s>" % s, "include/common/value.hpp"))
        out.append(("a string_view is not converted implicitly from an rvalue (%s)" % s, "!std::is_convertible_v<%s, std::string_view>" % s, "include/common/value.hpp"))
    for t in ARRAY_TARGETS:
        for s in ["json::array", "const json::array&"]:
            out.append(("conversion of %s to %s is not implicit" % (s, t), "!std::is_convertible_v<%s, %s>" % (s, t), "include/common/array.hpp"))
    for t in OBJECT_TARGETS:
        for s in ["json::object", "const json::object&"]:
            out.append(("conversion of %s to %s is not implicit" % (s, t), "!std::is_convertible_v<%s, %s>" % (s, t), "include/common/object.hpp"))
    return out


def controls(fs):
    """Facts that must hold for the rows to mean anything."""
    out = [("std::is_constructible_v<json::value, %s>" % t) for t in
           ["bool", "int", "unsigned char", "signed char", "const char*", "std::string", "std::string_view", "double", "json::array", "json::object", "w::Color",
            "w::Member", "w::Spec", "std::vector<int>", "std::map<std::string, int>", "std::optional<int>"]]
    for t in TARGETS + (["std::filesystem::path"] if fs else []):
        if t != "json::value":
            out.append("std::is_constructible_v<%s, const json::value&>" % t)
    out.append("std::is_constructible_v<std::string_view, json::value&>")
    return out


PRE = """#include "types.h"
#include <type_traits>
namespace w {
template <class T> void take(T);
template <class F, class T, class = void> constexpr bool implicit_call = false;
template <class F, class T> constexpr bool implicit_call<F, T, std::void_t<decltype(take<T>(std::declval<F>()))>> = true;
}
"""

# (what is rejected, snippet, the twin that is accepted)
SNIPPETS = [
    ("an array literal of characters", "void f() { json::array a { %C }; (void)a; }", "void f() { json::array a { 1 }; (void)a; }"),
    ("an object literal with a character", "void f() { json::object o { { \"k\", %C } }; (void)o; }", "void f() { json::object o { { \"k\", 1 } }; (void)o; }"),
    ("emplace_back of a character", "void f(json::array& a) { a.emplace_back(%C); }", "void f(json::array& a) { a.emplace_back(1); }"),
    ("emplace of a member that is a character", "void f(json::object& o) { o.emplace(\"k\", %C); }", "void f(json::object& o) { o.emplace(\"k\", 1); }"),
    ("assignment of a character through []", "void f(json::value& v) { v[\"k\"] = %C; }", "void f(json::value& v) { v[\"k\"] = 1; }"),
    ("a returned character", "json::value f() { return %C; }", "json::value f() { return 1; }"),
    ("a value initialised from a character", "void f() { json::value v = %C; (void)v; }", "void f() { json::value v = 1; (void)v; }"),
    ("a value made of a vector of characters", "json::value f(const std::vector<%T>& v) { return json::value(v); }", "json::value f(const std::vector<int>& v) { return json::value(v); }"),
    ("a value made of an optional character", "json::value f(const std::optional<%T>& v) { return json::value(v); }", "json::value f(const std::optional<int>& v) { return json::value(v); }"),
]
VIEW_SNIPPETS = [
    ("a string_view cast from a temporary", "json::value g(); auto f() { return static_cast<std::string_view>(g()).size(); }", "json::value& g(); auto f() { return static_cast<std::string_view>(g()).size(); }"),
    ("a string_view constructed from a moved value", "auto f(json::value& v) { std::string_view s(std::move(v)); return s.size(); }", "auto f(json::value& v) { std::string_view s(v); return s.size(); }"),
    ("a string_view cast from a const rvalue", "auto f(const json::value& v) { return static_cast<std::string_view>(std::move(v)).size(); }", "auto f(const json::value& v) { return static_cast<std::string_view>(v).size(); }"),
    ("an implicit string", "std::string f(const json::value& v) { return v; }", "std::string f(const json::value& v) { return std::string(v); }"),
    ("an implicit int", "int f(const json::value& v) { return v; }", "int f(const json::value& v) { return int(v); }"),
    ("an implicit argument", "void g(double); void f(const json::value& v) { g(v); }", "void g(double); void f(const json::value& v) { g(double(v)); }"),
    ("an int initialised from a value", "void f(const json::value& v) { int i = v; (void)i; }", "void f(const json::value& v) { int i { int(v) }; (void)i; }"),
    ("a string assigned from a value", "void f(const json::value& v) { std::string s; s = v; }", "void f(const json::value& v) { std::string s; s = v.as_string(); }"),
    ("arithmetic on a value", "int f(const json::value& v) { return v * 2; }", "int f(const json::value& v) { return int(v) * 2; }"),
    ("a switch on a value", "int f(const json::value& v) { switch (v) { default: return 1; } }", "int f(const json::value& v) { switch (int(v)) { default: return 1; } }"),
]
LITERALS = {"char": "'c'", "wchar_t": "L'c'", "char16_t": "u'c'", "char32_t": "U'c'"}


def check():
    c = Check("C24", "proof", "type-level encoding: static_assert rows on constructibility and convertibility, compile-fail witnesses with accepted twins")
    c.explanation = ("Each row is a static_assert on a type trait, decided by the front end on the current headers; each snippet is type-checked and has to be "
                     "rejected while its twin, which differs only in the construct at issue, has to be accepted.")
    c.trusted = ["clang 18 and gcc 13 front ends", "the list of target types in checks/c24.py (every conversion operator of json::value)"]
    compilers = [(CLANG, "c++17"), (GCC, "c++17"), (CLANG, "c++20")]
    traits = 0
    for comp, std in compilers:
        for fs in (0, 1):
            flags = ["-DVERIF_FS_PATH"] if fs else []
            rs, cs = rows(fs), controls(fs)
            text = PRE + "".join('static_assert(%s, "CONTROL%d");\n' % (e, i) for i, e in enumerate(cs))
            r = syntax(text, os.path.join(c.tmp, "ctl.cpp"), flags, comp, std)
            if r.returncode:
                raise Broken("control fails (%s -std=%s): %s" % (comp, std, r.stderr[:1500]))
            text = PRE + "".join('static_assert(%s, "ROW%d.");\n' % (e, i) for i, (_, e, _) in enumerate(rs))
            r = syntax(text, os.path.join(c.tmp, "rows.cpp"), flags + (["-ferror-limit=0"] if comp == CLANG else []), comp, std)
            failed = [i for i in range(len(rs)) if ("ROW%d." % i) in re.sub(r"\n\s*\d* \|.*", "", r.stderr)] if r.returncode else []
            if r.returncode:
                # one row at a time: errors outside the immediate context
                def one(i):
                    q = syntax(PRE + "static_assert(%s);\n" % rs[i][1], os.path.join(c.tmp, "row%d.cpp" % i), flags, comp, std)
                    return i if q.returncode else None
                cand = failed if failed else range(len(rs))
                bad = [i for i in pmap(one, list(cand)) if i is not None]
                if not bad:
                    raise Broken("rows fail together but not alone: " + r.stderr[:1500])
                for i in bad:
                    c.fail("forbidden conversion", rs[i][2], "%s: does not hold (%s)" % (rs[i][0], rs[i][1]), compiler=comp)
                c.ok(len(rs) - len(bad))
            else:
                c.ok(len(rs))
            traits += len(rs)
            for i in (0, len(rs) // 2, len(rs) - 3):
                c.sample(rs[i][1])
    snippets = []
    for what, bad, good in SNIPPETS:
        for t in CHARS:
            snippets.append((what + " (" + t + ")", bad.replace("%C", LITERALS[t]).replace("%T", t), good))
    snippets += VIEW_SNIPPETS

    def decide(k):
        what, bad, good = snippets[k]
        p = os.path.join(c.tmp, "s%d" % k)
        b = syntax('#include "types.h"\n' + bad + "\n", p + "b.cpp")
        g = syntax('#include "types.h"\n' + good + "\n", p + "g.cpp")
        return what, bad, good, b, g
    for what, bad, good, b, g in pmap(decide, range(len(snippets))):
        if g.returncode:
            raise Broken("the twin of '%s' is rejected: %s" % (what, g.stderr[:800]))
        if b.returncode == 0:
            c.fail("accepted program", "include/common/value.hpp", "%s compiles: %s" % (what, bad))
        else:
            c.ok()
    c.sample(snippets[0][1])
    c.counts.update(trait_rows=traits, compile_fail_snippets=len(snippets), accepted_twins=len(snippets), front_ends=len(compilers))
    c.assumptions = ["programs are judged by overload resolution and type traits of the two compilers installed here, in C++17 and C++20"]
    return c
