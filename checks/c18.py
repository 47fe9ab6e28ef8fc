"""C18: names and values of enums, decided by the constant evaluator of two front ends.

enum_to_string is constexpr and string_to_enum is made so in a copy of the header: for each enum of the table below every row is a static_assert whose operand the type checker
evaluates on the current headers. An access outside the name table is not a constant expression and is rejected as well. Nothing is executed."""
import os
from vlib import *

RED = [("Red", 1), ("Green", 2), ("Blue", 4)]
# name, scope, head, underlying type, enumerators, range or None
ENUMS = [
    ("Plain8", "", "enum class", "signed char", [("Low", -128), ("MinusOne", -1), ("Zero", 0), ("High", 127)], None),
    ("Char", "", "enum class", "char", [("A", 0), ("B", 1), ("Last", 127), ("First", -128)], None),
    ("Byte", "", "enum class", "unsigned char", [("None", 0), ("Mid", 128), ("Seven", 7), ("Full", 127)], None),
    ("Bool", "", "enum class", "bool", [("No", 0), ("Yes", 1)], None),
    ("Short", "", "enum class", "short", RED + [("Edge", 128), ("Over", 129), ("Lowest", -128), ("Under", -129)], None),
    ("UShort", "", "enum class", "unsigned short", RED + [("Edge", 128), ("Over", 129), ("Big", 65535)], None),
    ("Int", "ns::inner", "enum class", "int", RED + [("Min", -128), ("Edge", 128), ("Beyond", 1000)], None),
    ("UInt", "ns", "enum class", "unsigned", RED + [("Edge", 128), ("Huge", 4294967295)], None),
    ("Long", "ns", "enum class", "long long", [("abcdefghijklmnopqrstuvwxyz", 3), ("ABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789", -3), ("_", 0), ("__x9", 9), ("far", 1 << 40)], None),
    ("ULong", "ns", "enum class", "unsigned long long", RED + [("Alias1", 0), ("most", (1 << 64) - 1)], None),
    ("Unscoped", "ns", "enum", "int", [("un_a", 0), ("un_b", 5), ("un_c", -7)], None),
    ("Letters", "ns", "enum class", "int", [("a", 1), ("z", 2), ("A", 3), ("Z", 4), ("zZAa09", 5), ("Z9z0", 6), ("a_", 7), ("_z", 8)], None),
    ("Prefix", "", "enum class", "int", [("Up", 0), ("UpUp", 1), ("U", 2), ("Upp", 3), ("up_", 4)], None),
    ("Status", "", "enum class", "int", [("Idle", 100), ("Running", 101), ("Paused", 102), ("Stopped", 103)], ("Idle", "Stopped", 100, 103)),
    ("Wide", "ns", "enum class", "int", [("Start", -200), ("Mid", 17), ("End", 300)], ("Start", "End", -200, 300)),
    ("High", "", "enum class", "unsigned short", [("H0", 400), ("H1", 401), ("H9", 409), ("Out", 410), ("Below", 399)], ("H0", "H9", 400, 409)),
    ("Negative", "", "enum class", "short", [("Nm", -50), ("Nn", -45), ("No", -40), ("Zero", 0), ("One", 1)], ("Nm", "No", -50, -40)),
    ("HighU64", "", "enum class", "unsigned long long", [("K0", 1000), ("K5", 1005)], ("K0", "K5", 1000, 1005)),
    ("One", "ns", "enum class", "long", [("Only", 77)], ("Only", "Only", 77, 77)),
]
BITS = {"signed char": 8, "char": 8, "unsigned char": 8, "bool": 1, "short": 16, "unsigned short": 16, "int": 32, "unsigned": 32, "long": 64, "long long": 64, "unsigned long long": 64}


def signed(t):
    return t in ("signed char", "char", "short", "int", "long", "long long")


def qual(e):
    return "::" + (e[1] + "::" if e[1] else "") + e[0]


PRE = """#include "enum.hpp"
#include <string_view>
#include <optional>
#include <array>
using namespace std::string_view_literals;
using json::_reflection::enum_to_string;
using json::_reflection::string_to_enum;
constexpr char lower(char c) { return c >= 'A' && c <= 'Z' ? char(c - 'A' + 'a') : c; }
constexpr char flip(char c) { return c >= 'A' && c <= 'Z' ? char(c - 'A' + 'a') : c >= 'a' && c <= 'z' ? char(c - 'a' + 'A') : c; }
constexpr bool alike(std::string_view a, std::string_view b)
{
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i != a.size(); ++i) if (lower(a[i]) != lower(b[i])) return false;
    return true;
}
template <class E> struct Want; // names: every enumerator in range, with its value
template <class E> constexpr bool named(E e, std::string_view s)
{
    for (const auto& p : Want<E>::names) if (p.second == e) return s == p.first;
    return s.empty();
}
template <class E> constexpr bool found(std::string_view s)
{
    std::optional<E> got = string_to_enum<E>(s);
    for (const auto& p : Want<E>::names) if (alike(p.first, s)) return got.has_value() && *got == p.second;
    return !got.has_value();
}
// all values first, first + 1, ... of the underlying type, wrapping around
template <class E> constexpr bool span(std::underlying_type_t<E> first, int n)
{
    using U = std::underlying_type_t<E>;
    for (int i = 0; i != n; ++i) {
        E e = static_cast<E>(static_cast<U>(static_cast<unsigned long long>(first) + static_cast<unsigned long long>(i)));
        if (!named(e, enum_to_string(e))) return false;
    }
    return true;
}
// around all powers of two and their negatives
template <class E> constexpr bool powers(int from, int to, int lo, int hi)
{
    using U = std::underlying_type_t<E>;
    for (int k = from; k != to; ++k)
        for (int neg = 0; neg != 2; ++neg) {
            unsigned long long p = 1ull << k;
            if (neg) p = 0 - p;
            if (!span<E>(static_cast<U>(p + static_cast<unsigned long long>(static_cast<long long>(lo))), hi - lo + 1)) return false;
        }
    return true;
}
template <class E> constexpr bool texts()
{
    if (!found<E>(""sv)) return false;
    for (const auto& p : Want<E>::names) {
        char b[80] = {};
        const size_t n = p.first.size();
        for (size_t i = 0; i != n; ++i) b[i] = p.first[i];
        const std::string_view all(b, n);
        if (!found<E>(all)) return false;
        for (size_t i = 0; i != n; ++i) b[i] = flip(b[i]);
        if (!found<E>(all)) return false;
        for (size_t i = 0; i != n; ++i) { b[i] = p.first[i]; if (i % 2) b[i] = flip(b[i]); }
        if (!found<E>(all)) return false;
        for (size_t i = 0; i != n; ++i) b[i] = p.first[i];
        for (size_t i = 0; i <= n; ++i) if (!found<E>(all.substr(0, i)) || !found<E>(all.substr(i))) return false;
        b[n] = ' ';
        if (!found<E>(std::string_view(b, n + 1))) return false;
        b[n] = '\\0';
        if (!found<E>(std::string_view(b, n + 1))) return false;
        for (size_t i = 0; i != n; ++i) b[n + i] = p.first[i];
        if (!found<E>(std::string_view(b, 2 * n))) return false;
    }
    return true;
}
template <class E> constexpr bool bytes(size_t which, size_t at)
{
    const auto p = Want<E>::names[which];
    char b[80] = {};
    for (size_t i = 0; i != p.first.size(); ++i) b[i] = p.first[i];
    for (int c = 0; c != 256; ++c) {
        b[at] = static_cast<char>(c);
        if (!found<E>(std::string_view(b, p.first.size()))) return false;
    }
    return true;
}
"""


def declare(e):
    name, scope, head, under, items, rng = e
    lit = lambda v: ("%dull" % v if v > 0x7fffffffffffffff else "(-9223372036854775807ll - 1)" if v < -0x7fffffffffffffff else "%dll" % v)
    body = ", ".join("%s = static_cast<%s>(%s)" % (n, under, lit(v)) for n, v in items)
    if rng:
        body += ", MEOJSON_ENUM_RANGE(%s, %s)" % rng[:2]
    d = "%s %s : %s { %s };" % (head, name, under, body)
    if scope:
        d = "namespace %s { %s }" % (scope, d)
    lo, hi = (rng[2], rng[3]) if rng else (-128, 128)
    inside = [(n, v) for n, v in items if lo <= v <= hi]
    if under == "unsigned char" and not rng:
        # the window -128 .. 128 covers an 8-bit type twice
        inside = [(n, v) for n, v in items if v <= 128]
    q = qual(e)
    d += "\ntemplate <> struct Want<%s> { static constexpr std::pair<std::string_view, %s> names[] = { %s }; };\n" % (
        q, q, ", ".join('{ "%s"sv, %s::%s }' % (n, q if head == "enum class" else q.rsplit("::", 1)[0], n) for n, v in inside))
    return d, inside, lo, hi


def rows(e):
    q, under = qual(e), e[3]
    d, inside, lo, hi = declare(e)
    bits = BITS[under]
    out = []
    if bits == 1:
        out.append(("every value of %s has its own name or none" % q, "span<%s>(0, 2)" % q))
    elif bits <= 16:
        step = 4096
        for k in range(0, 1 << bits, step):
            base = k - (1 << (bits - 1)) if signed(under) else k
            out.append(("every value of %s has its own name or none, from %d" % (q, base), "span<%s>(%d, %d)" % (q, base, min(step, 1 << bits))))
    else:
        out.append(("the values of %s in range have their own names and the others near it none" % q, "span<%s>(static_cast<%s>(%dll), %d)" % (q, under, lo - 300, hi - lo + 601)))
        for k in range(8, bits):
            out.append(("no name for values of %s around the power of two %d" % (q, k) if (1 << k) > hi + 300 else "names of %s around the power of two %d" % (q, k),
                        "powers<%s>(%d, %d, %d, %d)" % (q, k, k + 1, lo - 3, hi + 3)))
    out.append(("names of %s map back in any case, and nothing else does" % q, "texts<%s>()" % q))
    for w, (n, v) in enumerate(inside):
        for at in range(len(n)):
            out.append(("%s with another byte at position %d is not a name of %s" % (n, at, q), "bytes<%s>(%d, %d)" % (q, w, at)))
    return d, out


# what a value does with enums: constant texts and unknown numbers are decided by abstract interpretation of witness/p_c18.cpp
NOTCONST = re.compile(r"non-.?constexpr|not usable as a .constexpr|non-literal|never produces a constant|not supported in a constant|step limit|limit of")


def assertion(err):
    return bool(re.search(r"static assertion failed", err))


def check():
    import programs
    c = programs.check("C18", "The conversion of every enumerator and of unknown enum values to a value, and of constant texts back, is followed through the library.")
    c.technique = "type-level encoding: static_assert rows evaluated by the front ends' constant evaluators; " + programs.TECHNIQUE
    c.explanation = ("Every row is a constant expression over enum_to_string or string_to_enum: all values of 8- and 16-bit enums, windows around the range and around every power of "
                     "two for wider ones, every name in several cases, all its prefixes and suffixes and all its one-byte changes. " + c.explanation)
    c.trusted += ["the constant evaluators of clang 18 and gcc 13"]
    decls, allrows = [], []
    for e in ENUMS:
        d, r = rows(e)
        decls.append(d)
        allrows += r
    pre = PRE + "".join(decls)
    # the only change to the header: string_to_enum is declared constexpr
    text = open(os.path.join(INCLUDE, "common", "enum_reflection.hpp")).read()
    text, changed = re.subn(r"(?<!constexpr )(?<!constexpr inline )((?:inline )?(?:std::)?optional<[^;{}()]*>\s+string_to_enum\s*\()", r"constexpr \1", text)
    with open(os.path.join(c.tmp, "enum.hpp"), "w") as f:
        f.write(text)
    r = syntax(pre, os.path.join(c.tmp, "pre.cpp"))
    if r.returncode:
        c.undecide("the rows do not compile: " + r.stderr[:400])
        return c
    n = 0
    jobs = []
    for comp, std in [(CLANG, "c++17"), (GCC, "c++17")]:
        k = 12
        for i in range(k):
            jobs.append((comp, std, i, allrows[i::k]))

    def decide(j):
        comp, std, i, rs = j
        flags = ["-fconstexpr-steps=1000000000", "-ferror-limit=0"] if comp == CLANG else ["-fconstexpr-ops-limit=4000000000", "-fconstexpr-loop-limit=10000000"]
        def run1(rs, tag):
            text = pre + "".join('static_assert(%s, "ROW%d.");\n' % (x, k) for k, (_, x) in enumerate(rs))
            return syntax(text, os.path.join(c.tmp, "%s-%s-%d%s.cpp" % (comp, std, i, tag)), flags, comp, std)
        q = run1(rs, "")
        if q.returncode == 0:
            return comp, len(rs), [], None
        bad = []
        for k, row in enumerate(rs):
            if ("ROW%d." % k) in q.stderr or "ROW" not in q.stderr:
                if len(bad) < 4:
                    s = run1([row], "-%d" % k)
                    if s.returncode:
                        bad.append((row, s.stderr))
        return comp, len(rs), bad, q.stderr
    for comp, count, bad, err in pmap(decide, jobs):
        n += count
        c.ok(count - len(bad) if len(bad) < 4 else 0)
        if err and not bad:
            c.undecide("rows fail together but not alone: " + err[:300])
        for (what, x), err in bad:
            if not assertion(err) and NOTCONST.search(err):
                c.undecide("not a constant expression any more: " + what)
                continue
            c.fail("enum name", "include/common/enum_reflection.hpp", "%s: does not hold (%s)" % (what, x), key="enum|" + x, compiler=comp)
    for i in (0, len(allrows) // 2, len(allrows) - 1):
        c.sample("%s: %s" % allrows[i])
    c.counts.update(enums=len(ENUMS), rows=n)
    return c
