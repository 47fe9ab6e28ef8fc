"""C22: no code of the library consults the global locale.

An effect analysis over the IR of an instantiation of the whole public API: every call of, and every reference to, a function
that reads the C or C++ locale is a violation, except formatted stream operations on a stream that has been imbued with the
classic locale on every path (a forward must-analysis per stream object, with summaries for streams passed to functions)."""
from ll import *

# C functions whose result depends on LC_CTYPE, LC_NUMERIC, LC_COLLATE, LC_TIME or LC_MONETARY
C_SENSITIVE = set("""isalpha isalnum isspace ispunct isprint isgraph iscntrl isupper islower isblank toupper tolower
iswalpha iswalnum iswspace iswpunct iswprint iswgraph iswcntrl iswupper iswlower iswdigit iswxdigit towupper towlower wctype iswctype
strtod strtof strtold atof wcstod wcstof wcstold localeconv strcoll strxfrm wcscoll strftime strfmon strcasecmp strncasecmp
mbstowcs wcstombs mbtowc wctomb mblen mbrtowc wcrtomb mbsrtowcs wcsrtombs btowc wctob setlocale newlocale uselocale nl_langinfo
__ctype_b_loc __ctype_tolower_loc __ctype_toupper_loc __ctype_get_mb_cur_max strptime""".split())
# printf and scanf families: sensitive for floating point conversions, digit grouping, wide characters
FMT = set("printf fprintf sprintf snprintf vprintf vfprintf vsprintf vsnprintf dprintf asprintf vasprintf scanf sscanf fscanf vsscanf __sprintf_chk __snprintf_chk __vsnprintf_chk __isoc99_sscanf __isoc23_sscanf".split())
# locale-independent by the C standard, or only skipping leading white space, which a stored number does not have
CXX_SENSITIVE = [r"^std::locale::global\(", r"^std::locale::name\(", r"std::use_facet<", r"std::has_facet<", r"^std::(tolower|toupper|is\w+)<char>\(",
                 r"std::ctype<", r"std::numpunct<", r"std::num_(get|put)<", r"std::(__cxx11::)?collate<", r"std::time_(get|put)<", r"std::codecvt<",
                 r"std::(__cxx11::)?basic_regex<", r"std::(__cxx11::)?regex_traits<"]
STREAM_OPS = [r"std::basic_ostream<.*>::_M_insert<(?!char)", r"^std::(ostream|basic_ostream<.*>)::operator<<\((bool|short|int|long|unsigned|float|double|void const\*)",
              r"std::basic_istream<.*>::_M_extract<", r"^std::(istream|basic_istream<.*>)::operator>>\((bool|short|int|long|unsigned|float|double|void\*)",
              r"^std::basic_istream<.*>& std::operator>><", r"std::ws<", r"std::(put|get)_(time|money)"]
STREAM_RE = re.compile("|".join(STREAM_OPS))
CXX_RE = re.compile("|".join(CXX_SENSITIVE))
# classification by C++ symbol families that are known not to read the locale
NEUTRAL = re.compile(r"^(std::(filesystem|_Rb_tree_|__detail::|_Hash_bytes|__throw_|__exception|terminate|from_chars|to_chars|get_terminate|uncaught)|std::__cxx11::(basic_string|basic_stringbuf|basic_ostringstream|basic_istringstream|basic_stringstream)"
                     r"|std::(ios_base|basic_ios|basic_filebuf|__basic_file|basic_streambuf|basic_ifstream|basic_istream|basic_ostream|locale::(classic|~locale|locale))|std::\w*exception|std::exception_ptr|std::__ostream_insert|std::(bad_|runtime_error|logic_error|out_of_range|invalid_argument)"
                     r"|std::basic_ostream<.*>& std::(__ostream_insert|operator<<|flush|endl)|operator (new|delete)|void sink<|__cxa|__clang|__gxx|_Unwind|std::operator|std::__atomic|std::thread|std::condition_variable|std::_V2|std::error_|std::chrono)")
C_NEUTRAL = re.compile(r"^(llvm\.|mem\w+$|str(len|cmp|ncmp|chr|rchr|cpy|ncpy|cat|str|nlen|spn|cspn|pbrk|dup)$|isdigit$|isxdigit$|is(nan|inf|finite)\w*$|malloc$|free$|calloc$|realloc$|abort$|strto(l|ll|ul|ull|imax|umax)$|ato(i|l|ll)$|__isoc23_strto|__errno_location$|pthread_\w+$|__cxa_\w+$|__dynamic_cast$|__gxx_personality_v0$|_Unwind_\w+$|__assert_fail$|fopen\w*$|fread$|fclose$|fseek\w*$|ftell\w*$|bcmp$|exp\w*$|log\w*$|pow\w*$|floor\w*$|ceil\w*$|trunc\w*$|fabs\w*$|modf\w*$|frexp\w*$|ldexp\w*$|round\w*$)")


def fmt_sensitive(f):
    return bool(re.search(r"%[-+ #0]*'|%[^a-zA-Z%]*(?:[hlLjzt]*)[aAeEfFgG]|%[^a-zA-Z%]*l[sc]|%[^a-zA-Z%]*[SC]", f))


class Streams:
    """Must-analysis: which stream objects are imbued with the classic locale."""

    def __init__(self, m, dem, report, undecide):
        self.m, self.dem, self.report, self.undecide = m, dem, report, undecide
        self.summary, self.active, self.ops, self.roots_cache = {}, set(), 0, {}
        self.relevant = self._relevant()

    def _is_op(self, k):
        return k.callee and k.callee[0] == "@" and STREAM_RE.search(self.dem.get(k.callee[1:], ""))

    def _is_imbue(self, k):
        return k.callee and re.search(r"std::(basic_ios<.*>|ios_base|basic_streambuf<.*>::pub)::?imbue\(|std::ios(_base)?::imbue\(", self.dem.get(k.callee[1:], "")) is not None

    def _relevant(self):
        """Functions that perform or reach a formatted operation or an imbue."""
        callers, base = {}, set()
        for k in self.m.insts():
            if not k.callee or k.callee[0] != "@":
                continue
            callers.setdefault(k.callee[1:], set()).add(k.fn.name)
            if self._is_op(k) or self._is_imbue(k):
                base.add(k.fn.name)
        work, out = list(base), set(base)
        while work:
            for c in callers.get(work.pop(), ()):
                if c not in out:
                    out.add(c)
                    work.append(c)
        return out

    def defs(self, f):
        if f.name not in self.roots_cache:
            d = {}
            for b in f.order:
                for k in f.blocks[b]:
                    if k.res:
                        d[k.res] = k
            self.roots_cache[f.name] = d
        return self.roots_cache[f.name]

    def roots(self, f, v, seen=None):
        seen = seen if seen is not None else set()
        if v in seen:
            return set()
        seen.add(v)
        if v in f.params:
            return {("param", f.params.index(v))}
        if v.startswith("@"):
            return {("global", v)}
        k = self.defs(f).get(v)
        if k is None:
            return {("unknown", v)}
        if k.op == "alloca":
            return {("alloca", v)}
        body = k.text.split(" = ", 1)[1]
        if k.op in ("getelementptr", "bitcast", "addrspacecast"):
            p = re.search(r"ptr (%s)" % ("[@%]" + NAME), body)
            return self.roots(f, p.group(1), seen) if p else {("unknown", v)}
        if k.op == "phi":
            return set().union(*[self.roots(f, x, seen) for x in re.findall(r"\[ ([@%]" + NAME + r"),", body)] or [set()])
        if k.op == "select":
            return set().union(*[self.roots(f, x, seen) for x in re.findall(r"ptr ([@%]" + NAME + ")", body)] or [set()])
        if k.op in ("call", "invoke") and k.args:
            name = self.dem.get((k.callee or "@")[1:], "")
            # chaining: the operators and manipulators of streams return the stream they are given
            if "stream<" in name or "std::ostream" in name or "std::istream" in name or "std::operator<<" in name:
                return self.roots(f, value_of(k.args[0]), seen)
            g = self.m.funcs.get((k.callee or "@")[1:])
            if g is not None:
                return self.returned(f, k, g, seen)
        return {("unknown", v)}

    def returned(self, f, k, g, seen):
        out = set()
        for b in g.order:
            for q in g.blocks[b]:
                r = re.match(r"ret ptr (\S+)", q.text)
                if r:
                    for kind, x in self.roots(g, r.group(1)):
                        out |= self.roots(f, value_of(k.args[x]), seen) if kind == "param" and x < len(k.args) else {("unknown", g.name)}
        return out

    def classic(self, f, v):
        """Whether the locale operand is the classic locale."""
        k = self.defs(f).get(v)
        if k is not None and k.op in ("call", "invoke") and k.callee == "@_ZNSt6locale7classicEv":
            return True
        for r in self.roots(f, v):
            if r[0] != "alloca":
                return False
            ok = False
            for b in f.order:
                for q in f.blocks[b]:
                    if q.op in ("call", "invoke") and q.callee and q.args and re.search(r"std::locale::locale\(", self.dem.get(q.callee[1:], "")):
                        if self.roots(f, value_of(q.args[0])) == {r} and len(q.args) > 1:
                            a = value_of(q.args[1])
                            ok = ok or self.m.strings.get(a) in ("C", "POSIX") or (a != v and self.classic(f, a))
            if not ok:
                return False
        return True

    def analyse(self, f):
        """Returns {param: ('needs', inst)} and the set of parameters imbued at every return."""
        if f.name in self.summary:
            return self.summary[f.name]
        if f.name in self.active or f.name not in self.relevant:
            return {}, set()
        self.active.add(f.name)
        needs = {}
        inn = {f.order[0]: frozenset()}
        work, exits = [f.order[0]], []
        reported = set()
        while work:
            b = work.pop()
            st = set(inn[b])
            for k in f.blocks[b]:
                if k.op not in ("call", "invoke") or not k.callee or k.callee[0] != "@":
                    continue
                name = k.callee[1:]
                if self._is_imbue(k):
                    a = k.args
                    this = value_of(a[1] if "sret" in a[0] else a[0])
                    ok = self.classic(f, value_of(a[-1]))
                    for r in self.roots(f, this):
                        st.discard(r)
                        if ok:
                            st.add(r)
                elif self._is_op(k):
                    if k.text not in reported:
                        reported.add(k.text)
                        self.ops += 1
                    self.need(f, k, self.roots(f, value_of(k.args[0])), st, needs, k)
                elif name in self.m.funcs:
                    n2, imb = self.analyse(self.m.funcs[name])
                    for p, op in n2.items():
                        if p < len(k.args):
                            self.need(f, k, self.roots(f, value_of(k.args[p])), st, needs, op)
                    for p in imb:
                        if p < len(k.args):
                            st |= self.roots(f, value_of(k.args[p]))
                elif re.search(r"stream<.*>::basic_\w*stream\(", self.dem.get(name, "")) and k.args:
                    for r in self.roots(f, value_of(k.args[0])):
                        st.discard(r)
            if not f.succ.get(b) and f.blocks[b] and f.blocks[b][-1].op == "ret":
                exits.append((b, frozenset(st)))
            for s in f.succ.get(b, ()):
                new = frozenset(st) if s not in inn else inn[s] & st
                if s not in inn or new != inn[s]:
                    inn[s] = new
                    work.append(s)
        last = dict(exits)
        imb = set.intersection(*[set(x) for x in last.values()]) if last else set()
        imb = {x for kind, x in imb if kind == "param"}
        self.active.discard(f.name)
        self.summary[f.name] = (needs, imb)
        return needs, imb

    def need(self, f, k, roots, st, needs, op):
        for r in roots:
            if r in st:
                continue
            if r[0] == "param":
                needs.setdefault(r[1], op)
            elif r[0] == "alloca" or r[0] == "global":
                self.report(op, "formatted stream operation '%s' on a stream that is not imbued with the classic locale on every path" % self.dem[op.callee[1:]].split("(")[0])
            else:
                self.undecide("cannot tell which stream %s is used in %s" % (r[1], self.m.where(k)))


CONFIGS = [
    ("default", []),
    ("full precision", ["-DMEOJSON_KEEP_FLOATING_PRECISION"]),
    ("enum as number", ["-DMEOJSON_ENUM_AS_NUMBER"]),
    ("no acceleration", ["-DMEOJSON_DISABLE_PACKED_BYTES"]),
    ("no floating point from_chars", ["-include", "nochars.h"]),
    ("C++20", ["-std=c++20"]),
]


def check():
    c = Check("C22", "proof", "effect analysis: reachability of locale-reading functions over the call graph, typestate of streams (imbued with the classic locale before formatted use)")
    c.explanation = "All functions of the IR of witness/api.cpp (an instantiation of the public API) are scanned in every configuration; each external callee is classified."
    c.trusted = ["the classification of external functions in checks/c22.py", "std::from_chars and std::to_string of integers are locale-independent (C++ standard)"]
    c.assumptions = ["user-supplied conversions and streams passed in by the user are outside", "the codecvt facet of a file stream does not convert char to char",
                     "integer strto*/ato* functions depend on the locale only in leading white space"]
    tot = {"functions": 0, "call_sites": 0, "external_functions": 0, "stream_operations": 0}

    def one(cfg):
        label, flags = cfg
        return label, textual(os.path.join(VERIF, "witness/api.cpp"), os.path.join(c.tmp, label.replace(" ", "_") + ".ll"), flags, passes="function(sroa)")
    mods = pmap(one, CONFIGS, 6)
    for label, m in mods:
        names = set()
        refs = []
        for k in m.insts():
            if k.callee and k.callee[0] == "@":
                names.add(k.callee[1:])
                tot["call_sites"] += 1
                refs.append((k, k.callee[1:], True))
            for g in re.findall(r"@(" + NAME + ")", " ".join(k.args) if k.callee else k.text):
                g = g.strip('"')
                if g in m.decls:
                    refs.append((k, g, False))
                    names.add(g)
        dem = m.demangle(sorted(names | set(m.funcs)))
        ext = {n for n in names if n in m.decls}
        tot["functions"] += len(m.funcs)
        tot["external_functions"] += len(ext)

        def report(k, what):
            where = m.where(k)
            c.fail("locale effect", where, "%s (in %s)" % (what, dem.get(k.fn.name, k.fn.name)[:160]), key="%s|%s" % (where, what), configuration=label)
        for k, n, direct in refs:
            if n not in m.decls:
                continue
            d = dem[n]
            where_fn = dem.get(k.fn.name, "")
            if where_fn.startswith("w::"):
                continue
            if n in FMT:
                strs = [m.strings[value_of(a)] for a in k.args if value_of(a) in m.strings]
                if not strs:
                    c.undecide("format of %s at %s is not a constant" % (n, m.where(k)))
                elif any(fmt_sensitive(s) for s in strs):
                    report(k, "%s with the locale-dependent format \"%s\"" % (n, strs[0]))
                else:
                    c.ok()
            elif n in C_SENSITIVE:
                report(k, "use of %s, which reads the locale" % n)
            elif CXX_RE.search(d):
                report(k, "use of %s, which reads the locale" % d.split("(")[0])
            elif STREAM_RE.search(d):
                pass
            elif NEUTRAL.search(d) or C_NEUTRAL.search(n):
                c.ok()
            else:
                c.undecide("external function %s (at %s) is not classified" % (d, m.where(k)))
        s = Streams(m, dem, report, c.undecide)
        for f in list(m.funcs.values()):
            if f.name in s.relevant:
                s.analyse(f)
        tot["stream_operations"] += s.ops
        c.ok(s.ops)
        if s.ops < 2 and not c.violations:
            # floating point must be formatted somewhere: with streams, or with to_chars
            if not any("to_chars" in dem.get(n, "") for n in ext):
                raise Broken("no formatted output found in configuration " + label)
    c.counts.update(tot, configurations=[l for l, _ in CONFIGS])
    c.sample("%d external functions, for instance %s" % (tot["external_functions"], ", ".join(sorted(dem[n].split("(")[0] for n in ext if "std::" in dem[n])[:8])))
    return c
