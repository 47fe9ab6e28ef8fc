"""C23: results do not refer to temporaries.

1. Type-level rows: what get, find, as and the conversions return for every kind of default and target is an object of its own.
2. An escape analysis over the IR of the instantiated API: no returned pointer (or pointer of a returned view) is the address of,
   or loaded from, a local object or a by-value parameter that is destroyed when the function returns.
3. The lifetime diagnostics of both compilers on the same instantiation."""
from ll import *

DEFAULTS = ["int", "bool", "double", "unsigned long", "const char*", "char*", "std::string", "std::string_view", "json::value", "json::array", "json::object",
            "std::vector<int>", "std::map<std::string, int>", "std::optional<int>", "w::Color", "w::Member"]
KEYS = {"json::value": ['"k"', "1", "std::string()", '"k", 1', '1, "k"', '"k", "l", 2'], "json::array": ["1", '1, "k"', "1, 2"], "json::object": ['"k"', '"k", 1', '"k", "l"']}
PRE = """#include "types.h"
namespace w {
template <class T> struct is_view : std::false_type {};
template <> struct is_view<std::string_view> : std::true_type {};
template <class T> struct is_view<std::optional<T>> : is_view<T> {};
template <class T> constexpr bool own = std::is_object_v<T> && !std::is_pointer_v<T> && !is_view<std::remove_cv_t<T>>::value && !std::is_same_v<T, std::reference_wrapper<const json::value>>;
template <class T> T lv();
}
"""


def rows():
    out = []
    for cont, keys in KEYS.items():
        where = "include/common/%s.hpp" % cont.split("::")[1]
        for k in keys:
            for d in DEFAULTS:
                for cat in ["%s", "%s&", "const %s&"]:
                    t = cat % d if d not in ("char*", "const char*") else {"%s": d, "%s&": d + "&", "const %s&": d + " const&"}[cat]
                    out.append(("%s::get(%s, %s) returns an object of its own" % (cont, k, t), "w::own<decltype(std::declval<const %s&>().get(%s, std::declval<%s>()))>" % (cont, k, t), where))
            out.append(("%s::get(%s, literal) returns an object of its own" % (cont, k), "w::own<decltype(std::declval<const %s&>().get(%s, \"literal\"))>" % (cont, k), where))
            out.append(("%s::get(%s, literal) returns a string" % (cont, k), "std::is_same_v<decltype(std::declval<const %s&>().get(%s, \"literal\")), std::string>" % (cont, k), where))
            out.append(("%s::get(%s, string_view) returns a string" % (cont, k), "std::is_same_v<decltype(std::declval<const %s&>().get(%s, std::string_view())), std::string>" % (cont, k), where))
    for t in ["int", "std::string", "json::value", "json::array", "json::object", "std::vector<int>", "w::Member", "w::MoveSpec"]:
        for s in ["json::value", "json::value&", "const json::value&"]:
            out.append(("as<%s>() of %s returns an object of its own" % (t, s), "std::is_same_v<decltype(std::declval<%s>().as<%s>()), %s>" % (s, t, t), "include/common/value.hpp"))
        for k in ["1", '"k"']:
            out.append(("find<%s> returns an object of its own" % t, "std::is_same_v<decltype(std::declval<const json::value&>().find<%s>(%s)), std::optional<%s>>" % (t, k, t), "include/common/value.hpp"))
        out.append(("array::find<%s> returns an object of its own" % t, "std::is_same_v<decltype(std::declval<const json::array&>().find<%s>(1)), std::optional<%s>>" % (t, t), "include/common/array.hpp"))
        out.append(("object::find<%s> returns an object of its own" % t, "std::is_same_v<decltype(std::declval<const json::object&>().find<%s>(\"k\")), std::optional<%s>>" % (t, t), "include/common/object.hpp"))
    for s in ["json::value", "json::value&&", "const json::value", "const json::value&&"]:
        out.append(("no string_view of %s" % s, "!std::is_constructible_v<std::string_view, %s>" % s, "include/common/value.hpp"))
    for m in ["as_string()", "to_string()", "format()", "dumps()", "type_name()", "value_info()"]:
        out.append(("%s returns a string" % m, "std::is_same_v<decltype(std::declval<const json::value&>().%s), std::string>" % m, "include/common/value.hpp"))
    for op in ["std::declval<const json::array&>() + std::declval<const json::array&>()", "std::declval<json::array>() + std::declval<json::array>()",
               "std::declval<json::array>() + std::declval<const json::array&>()", "std::declval<const json::array&>() + std::declval<json::array>()"]:
        out.append(("array + array is an object of its own", "std::is_same_v<decltype(%s), json::array>" % op, "include/common/array.hpp"))
        out.append(("object | object is an object of its own", "std::is_same_v<decltype(%s), json::object>" % op.replace("+", "|").replace("array", "object"), "include/common/object.hpp"))
        first = op.replace("json::array", "json::value", 1)
        out.append(("value + array is an object of its own", "std::is_same_v<decltype(%s), json::value>" % first, "include/common/value.hpp"))
        out.append(("value | object is an object of its own", "std::is_same_v<decltype(%s), json::value>" % first.replace("+", "|").replace("array", "object"), "include/common/value.hpp"))
    return out


class Escape:
    """For each function: where the returned pointers come from."""

    def __init__(self, m, dem):
        self.m, self.dem = m, dem
        self.memo, self.active, self.defs_, self.stores_, self.dead_ = {}, set(), {}, {}, {}
        self.calls_, self.put = {}, {}

    def prepare(self, f):
        if f.name in self.defs_:
            return
        d, s, dead = {}, {}, set()
        for b in f.order:
            for k in f.blocks[b]:
                if k.res:
                    d[k.res] = k
                if k.op == "store":
                    q = re.match(r"store (?:volatile )?ptr (\S+), ptr (%" + NAME + ")", k.text)
                    if q:
                        s.setdefault(self.base(d, q.group(2)), []).append(q.group(1))
                if k.op in ("call", "invoke") and k.callee and k.args and k.callee[0] == "@" and ("D2Ev" in k.callee or "D1Ev" in k.callee or "D0Ev" in k.callee):
                    dead.add(value_of(k.args[0]))
        self.defs_[f.name], self.stores_[f.name], self.dead_[f.name] = d, s, dead

    def base(self, d, v):
        for _ in range(50):
            k = d.get(v)
            if k is None or k.op not in ("getelementptr", "bitcast"):
                return v
            q = re.search(r"ptr ([@%]" + NAME + ")", k.text.split(" = ", 1)[1])
            if not q:
                return v
            v = q.group(1)
        return v

    def stored_by_calls(self, f, a):
        """Pointers that constructors and other callees put into the local object a."""
        if f.name not in self.calls_:
            t = {}
            for b in f.order:
                for k in f.blocks[b]:
                    if k.op in ("call", "invoke") and k.callee and k.callee[0] == "@" and k.callee[1:] in self.m.funcs:
                        g = self.m.funcs[k.callee[1:]]
                        for i, x in enumerate(k.args):
                            bx = self.base(self.defs_[f.name], value_of(x))
                            db = self.defs_[f.name].get(bx)
                            if db is not None and db.op == "alloca":
                                for j in self.stored(g).get(i, ()):
                                    if j < len(k.args):
                                        t.setdefault(bx, []).append(value_of(k.args[j]))
            self.calls_[f.name] = t
        return self.calls_[f.name].get(a, [])

    def stored(self, g):
        """param -> the params whose pointers the function stores in its memory as they are (a view of them)."""
        if g.name in self.put:
            return self.put[g.name]
        self.put[g.name] = {}
        self.prepare(g)
        out = {}
        for a, vals in self.stores_[g.name].items():
            if a in g.params:
                for v in vals:
                    for kind, x, loaded in self.roots(g, v, set()):
                        if kind == "param" and x != g.params.index(a):
                            out.setdefault(g.params.index(a), set()).add(x)
        for b in g.order:
            for k in g.blocks[b]:
                if k.op in ("call", "invoke") and k.callee and k.callee[0] == "@" and k.callee[1:] in self.m.funcs and re.search(r"C[12]E", k.callee):
                    h = self.stored(self.m.funcs[k.callee[1:]])
                    for i, js in h.items():
                        if i < len(k.args):
                            bi = self.base(self.defs_[g.name], value_of(k.args[i]))
                            if bi in g.params:
                                for j in js:
                                    for kind, x, loaded in self.roots(g, value_of(k.args[j]), set()):
                                        if kind == "param" and x != g.params.index(bi):
                                            out.setdefault(g.params.index(bi), set()).add(x)
        self.put[g.name] = out
        return out

    def roots(self, f, v, seen, loaded=False):
        """Set of (kind, what, loaded): kind is local, param or other."""
        self.prepare(f)
        if (v, loaded) in seen:
            return set()
        seen.add((v, loaded))
        if v in f.params:
            return {("param", f.params.index(v), loaded)}
        if not v.startswith("%"):
            return {("other", v, loaded)}
        k = self.defs_[f.name].get(v)
        if k is None:
            return {("other", v, loaded)}
        body = k.text.split(" = ", 1)[1]
        if k.op == "alloca":
            return {("local", v, loaded)}
        if k.op in ("getelementptr", "bitcast", "freeze"):
            p = re.search(r"ptr ([@%]" + NAME + ")", body)
            return self.roots(f, p.group(1), seen, loaded) if p else {("other", v, loaded)}
        if k.op == "phi":
            return set().union(*[self.roots(f, x, seen, loaded) for x in re.findall(r"\[ ([@%]" + NAME + r"),", body)] or [set()])
        if k.op == "select":
            return set().union(*[self.roots(f, x, seen, loaded) for x in re.findall(r"ptr ([@%]" + NAME + ")", body)] or [set()])
        if k.op == "load":
            p = re.search(r"load (?:volatile )?(?:\{[^}]*\}|\S+), ptr (%" + NAME + ")", body)
            if not p:
                return {("other", v, loaded)}
            # a pointer kept in a local slot: what was stored there, if that is seen
            a = self.base(self.defs_[f.name], p.group(1))
            st = self.stores_[f.name].get(a, []) + self.stored_by_calls(f, a)
            da = self.defs_[f.name].get(a)
            if st and da is not None and da.op == "alloca":
                return set().union(*[self.roots(f, x, seen, loaded) for x in st])
            return self.roots(f, a, seen, True)
        if k.op in ("extractvalue", "insertvalue"):
            return set().union(*[self.roots(f, x, seen, loaded) for x in re.findall(r"(%" + NAME + ")", re.sub(r"^\w+ (\{[^}]*\}|%\S+)", "", body))] or [set()])
        if k.op in ("call", "invoke") and k.callee and k.callee[0] == "@":
            g = self.m.funcs.get(k.callee[1:])
            out = set()
            if g is not None:
                for kind, x, l in self.summary(g):
                    if kind == "param" and x < len(k.args):
                        a = self.base(self.defs_[f.name], value_of(k.args[x]))
                        da = self.defs_[f.name].get(a)
                        st = self.stores_[f.name].get(a, []) + self.stored_by_calls(f, a) if l and da is not None and da.op == "alloca" else []
                        if st and a not in self.dead_[f.name]:
                            # a view kept in a local object: what the view refers to
                            out |= set().union(*[self.roots(f, y, seen, loaded) for y in st])
                        else:
                            out |= self.roots(f, value_of(k.args[x]), seen, loaded or l)
                return out
            return {("other", v, loaded)}
        return {("other", v, loaded)}

    def summary(self, f):
        if f.name in self.memo:
            return self.memo[f.name]
        if f.name in self.active:
            return set()
        self.active.add(f.name)
        out = set()
        for b in f.order:
            for k in f.blocks[b]:
                r = re.match(r"ret (?:ptr|\{[^}]*ptr[^}]*\}|%\S+) (\S+)$", k.text)
                if k.op == "ret" and r:
                    out |= self.roots(f, r.group(1), set())
        self.active.discard(f.name)
        self.memo[f.name] = out
        return out

    def bad(self, f):
        """Local objects that the returned pointer refers to."""
        out = []
        for kind, x, loaded in self.summary(f):
            if kind == "local" and (not loaded or x in self.dead_[f.name]):
                out.append((x, loaded))
        return out

    def returns_pointer(self, f):
        return any(k.op == "ret" and re.match(r"ret (ptr|\{[^}]*ptr|%)", k.text) for b in f.order for k in f.blocks[b])


SELFTEST = r"""
#include <string>
#include <string_view>
namespace json {
std::string make();
__attribute__((used)) std::string_view bad_view() { std::string s = make(); return s; }
__attribute__((used)) const char& bad_ref(std::string s) { std::string t = s; return t.front(); }
__attribute__((used)) std::string_view good_view(const std::string& s) { std::string t = make(); return t.empty() ? std::string_view(s) : std::string_view("x"); }
}
"""


def check():
    c = Check("C23", "proof", "type-level encoding of result types, interprocedural escape analysis of returned pointers, compiler lifetime diagnostics")
    c.explanation = "Rows: static_assert on the result types. Escape: roots of every returned pointer of every json:: function of the instantiated API, through calls, loads and views."
    c.trusted = ["clang 18 and gcc 13", "witness/api.cpp instantiates the API"]
    rs = rows()
    text = PRE + "".join('static_assert(%s, "ROW%d.");\n' % (e, i) for i, (_, e, _) in enumerate(rs))
    nrows = 0
    for comp in (CLANG, GCC):
        r = syntax(text, os.path.join(c.tmp, "rows.cpp"), ["-ferror-limit=0"] if comp == CLANG else [], comp)
        nrows += len(rs)
        if not r.returncode:
            c.ok(len(rs))
            continue
        cand = [i for i in range(len(rs)) if ("ROW%d." % i) in re.sub(r"\n\s*\d* \|.*", "", r.stderr)] or range(len(rs))

        def one(i):
            q = syntax(PRE + "static_assert(%s);\n" % rs[i][1], os.path.join(c.tmp, "row%d.cpp" % i), [], comp)
            return (i, "static assertion failed" in q.stderr or "static_assert failed" in q.stderr, q) if q.returncode else None
        bad = [x for x in pmap(one, list(cand)[:400]) if x]
        if not bad:
            raise Broken("rows fail together but not alone: " + r.stderr[:1500])
        for i, assertion, q in bad:
            if assertion:
                c.fail("result type", rs[i][2], "%s: does not hold (%s)" % (rs[i][0], rs[i][1]), compiler=comp)
            else:
                c.undecide("row cannot be decided: %s: %s" % (rs[i][1], q.stderr[:300]))
        c.ok(len(rs) - len(bad))
    for i in (0, len(rs) // 3, len(rs) - 1):
        c.sample(rs[i][1])

    # escape analysis
    p = os.path.join(c.tmp, "self.cpp")
    open(p, "w").write(SELFTEST)
    sm = textual(p, p + ".ll", passes="function(sroa)")
    se = Escape(sm, sm.demangle(list(sm.funcs)))
    got = sorted(d.split("(")[0] for n, d in se.dem.items() if n.startswith("_ZN4json") and se.bad(sm.funcs[n]))
    if got != ["json::bad_ref", "json::bad_view"]:
        raise Broken("escape analysis self-test: %s" % got)
    funcs = 0
    for flags in ([], ["-DMEOJSON_ENUM_AS_NUMBER"]):
        m = textual(os.path.join(VERIF, "witness/api.cpp"), os.path.join(c.tmp, "api.ll"), flags, passes="function(sroa)")
        dem = m.demangle(list(m.funcs))
        e = Escape(m, dem)
        for n, f in m.funcs.items():
            if not re.match(r"^_ZN[KRO]*4json", n) or not e.returns_pointer(f):
                continue
            funcs += 1
            c.ok()
            for local, loaded in e.bad(f):
                ret = [k for b in f.order for k in f.blocks[b] if k.op == "ret"][0]
                c.fail("escaping local", m.where(ret), "%s returns a pointer or view %s the local object %s" % (dem[n][:200], "into" if loaded else "to", local))
            if funcs % 40 == 1:
                c.sample("%s: returned pointers come from %s" % (dem[n][:120], sorted("%s %s" % (k, x) for k, x, _ in e.summary(f))[:4]))
    if funcs < 25:
        raise Broken("only %d pointer-returning functions found" % funcs)

    # compiler diagnostics
    diags = 0
    for comp, warn in ((CLANG, ["-Wdangling", "-Wdangling-gsl", "-Wreturn-stack-address", "-Wdangling-field", "-Wdangling-initializer-list"]),
                       (GCC, ["-O1", "-Wreturn-local-addr", "-Wdangling-pointer=2", "-Winit-list-lifetime"])):
        r = run([comp, "-std=c++17", "-c", "-o", "/dev/null", *warn, "-I" + INCLUDE, "-I" + os.path.join(VERIF, "witness"), os.path.join(VERIF, "witness/api.cpp")])
        if r.returncode:
            raise Broken("cannot compile api.cpp: " + r.stderr[:1000])
        for w in re.findall(r"^(\S*?include/\S+:\d+):\d+: warning: (.*\[-W(?:dangling|return|init-list)[\w=-]*\])$", r.stderr, re.M):
            if "/repo" in w[0] or INCLUDE in w[0]:
                c.fail("compiler lifetime diagnostic", w[0].replace(REPO + "/", ""), w[1], compiler=comp)
        diags += len(warn)
        c.ok()
    c.counts.update(trait_rows=nrows, pointer_returning_functions=funcs, diagnostics_enabled=diags)
    return c
