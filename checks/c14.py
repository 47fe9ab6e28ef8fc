"""C14: const operations on a value that is only read (programs.py), and an effect analysis of static storage.

The effect analysis takes the IR of an instantiation of the whole public API. Every variable of static storage duration that is neither
constant nor thread-local, an atomic or a guard, is followed through every function it is passed to: a write to it, or to what it holds, outside
its guarded initialisation, is a violation."""
import programs
from ll import *

CONFIGS = [("default", []), ("full precision", ["-DMEOJSON_KEEP_FLOATING_PRECISION"]), ("enum as number", ["-DMEOJSON_ENUM_AS_NUMBER"]), ("no acceleration", ["-DMEOJSON_DISABLE_PACKED_BYTES"])]
READING = re.compile(r"::(begin|end|cbegin|cend|rbegin|rend|find|at|data|c_str|size|length|empty|count|get|lower_bound|upper_bound|equal_range|compare|operator\*|operator->|operator==|_M_\w*begin|_M_\w*end|_M_data|_M_local_data|~\w+)\(|^std::(_Rb_tree_increment|_Rb_tree_decrement)|^(memcmp|bcmp|strlen|strcmp)$")
WRITING_C = re.compile(r"^(memcpy|memmove|memset|strcpy|strncpy|strcat|sprintf|snprintf|vsnprintf|llvm\.mem(cpy|move|set))")
LOCKS = re.compile(r"pthread_mutex_lock|pthread_rwlock|std::(recursive_|shared_)?mutex::lock|call_once")
NAME_G = "@(" + NAME + ")"


class Statics:
    def __init__(self, m, dem):
        self.m, self.dem, self.memo, self.uses_of = m, dem, {}, {}
        for f in m.funcs.values():
            u = self.uses_of[f.name] = {}
            for b in f.order:
                for k in f.blocks[b]:
                    body = k.text.split(" = ", 1)[-1] if k.res else k.text
                    for v in set(re.findall(r"[@%]" + NAME, body)):
                        u.setdefault(v, []).append(k)

    def guarded(self, f, g):
        """The blocks of f in which g is being initialised: those between the acquisition and the release of its guard."""
        u = self.uses_of[f.name]
        start = [k for b in f.order for k in f.blocks[b] if k.callee == "@__cxa_guard_acquire"]
        out = set()
        for a in start:
            # the successor taken if the guard was acquired: the one from which the release is reachable without passing the other
            work = list(f.succ.get(a.block, ()))
            reach = {}
            for s in work:
                seen, todo = {s}, [s]
                while todo:
                    b = todo.pop()
                    if any(k.callee in ("@__cxa_guard_release", "@__cxa_guard_abort") for k in f.blocks[b]):
                        continue
                    for n in f.succ.get(b, ()):
                        if n not in seen:
                            seen.add(n)
                            todo.append(n)
                reach[s] = seen
            for s, seen in reach.items():
                if any(k.callee == "@__cxa_guard_release" for b in seen for k in f.blocks[b]):
                    other = set().union(*[x for t, x in reach.items() if t != s] or [set()])
                    out |= {b for b in seen if b not in other}
        return out

    def written(self, f, v, g=None):
        """Where what v refers to is written in f, and where that could not be told."""
        key = (f.name, v)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = ([], [])
        out, unk = [], []
        skip = self.guarded(f, g) if g else set()
        locked = any(k.callee and LOCKS.search(self.dem.get(k.callee[1:], k.callee[1:])) for b in f.order for k in f.blocks[b])
        seen, work = set(), [v]
        while work:
            x = work.pop()
            if x in seen:
                continue
            seen.add(x)
            for k in self.uses_of[f.name].get(x, ()):
                if k.block in skip:
                    continue
                body = k.text.split(" = ", 1)[-1] if k.res else k.text
                if k.op in ("getelementptr", "phi", "select", "bitcast", "extractvalue", "insertvalue", "freeze"):
                    work.append(k.res)
                elif k.op == "load":
                    if body.startswith("load ptr"):
                        work.append(k.res)
                elif k.op == "store":
                    val, ptr = split_args(body[6:])[:2]
                    if value_of(ptr) == x or re.search(re.escape(x) + r"\b", ptr) and not value_of(ptr).startswith("%"):
                        if " atomic " not in body:
                            (unk if locked else out).append((k, "a store"))
                    else:
                        # its address is kept in a local variable
                        p = value_of(ptr)
                        d = [q for q in self.uses_of[f.name].get(p, ()) if q.op == "load"]
                        work += [q.res for q in d]
                elif k.op in ("call", "invoke"):
                    self.call(f, k, x, out, unk, locked, work)
                elif k.op in ("cmpxchg", "atomicrmw", "icmp", "ret", "ptrtoint", "br", "switch"):
                    pass
        self.memo[key] = (out, unk)
        return out, unk

    def call(self, f, k, x, out, unk, locked, work):
        name = (k.callee or "@")[1:]
        pos = [i for i, a in enumerate(k.args) if re.search(re.escape(x) + r"(?![\w.\-$])", a)]
        if not pos or name.startswith(("llvm.dbg", "llvm.lifetime", "__cxa_guard", "__cxa_atexit", "llvm.assume", "llvm.prefetch", "llvm.invariant")):
            return
        g = self.m.funcs.get(name)
        d = self.dem.get(name, name)
        if g is not None:
            for i in pos:
                if i < len(g.params):
                    o, u = self.written(g, g.params[i])
                    (unk if locked else out).extend(o)
                    unk.extend(u)
            if re.search(r"= (?:tail )?(call|invoke) .*ptr @", k.text) and k.res:
                work.append(k.res)
            return
        if WRITING_C.match(name):
            if 0 in pos:
                (unk if locked else out).append((k, "a call of " + name))
        elif READING.search(d) or d.endswith(" const") or "atomic" in d or "mutex" in d:
            if k.res:
                work.append(k.res)
        elif pos == [0] and re.search(r"^(std::(__cxx11::)?(basic_string|basic_ostringstream|basic_stringstream|basic_ostream|basic_ios)<|std::(ostream|ios_base|ios)::|std::_Rb_tree_(insert|rebalance)|std::__detail::_List)", d):
            (unk if locked else out).append((k, "a call of " + d.split("(")[0]))
        elif name.startswith("_Zd") or re.search(r"basic_string<.*>::(basic_string|assign|_M_append|append|_M_replace|_M_construct)", d) and 0 not in pos:
            pass
        else:
            unk.append((k, "a call of " + d.split("(")[0]))


def statics(c):
    tot = {"mutable_statics": 0, "functions_scanned": 0, "globals_scanned": 0}

    def one(cfg):
        label, flags = cfg
        return label, textual(os.path.join(VERIF, "witness/api.cpp"), os.path.join(c.tmp, "s" + label.replace(" ", "_") + ".ll"), list(flags) + ["-g"], passes="function(sroa)")
    for label, m in pmap(one, CONFIGS, 4):
        dem = m.demangle(sorted(set(m.funcs) | m.decls | set(m.globals)))
        s = Statics(m, dem)
        tot["functions_scanned"] += len(m.funcs)
        for g, text in m.globals.items():
            tot["globals_scanned"] += 1
            if re.search(r"\bconstant\b|\bthread_local\b|^external|^appending", text.split(" align")[0].split("{")[0].split("[")[0]) or g.startswith(("_ZGV", "llvm.", "_ZStL8__ioinit")):
                continue
            name = dem.get(g, g)
            if name.startswith("w::"):
                continue
            tot["mutable_statics"] += 1
            for f in m.funcs.values():
                if "@" + g not in s.uses_of[f.name] and '@"%s"' % g not in s.uses_of[f.name]:
                    continue
                if f.name.startswith(("__cxx_global_var_init", "_GLOBAL__sub_I")):
                    continue
                s.memo = {k: v for k, v in s.memo.items() if not k[1].startswith("@")}
                out, unk = s.written(f, "@" + g, g)
                for k, what in out:
                    where = m.where(k)
                    c.fail("static storage", where, "%s writes to the static variable %s, used in %s, without synchronisation" % (what, name, dem.get(f.name, f.name).split("(")[0]), key="%s|%s" % (name, where), configuration=label)
                for k, what in unk[:1]:
                    c.undecide("%s with the static variable %s (at %s)" % (what, name, m.where(k)))
                if not out and not unk:
                    c.ok()
    c.ok(tot["functions_scanned"])
    c.counts.update(tot)


def check():
    c = programs.check("C14", "Every const operation is applied to a value, array or object of every kind whose storage, with everything reachable from it, is marked as only read: a write to it, or to static storage, on any path is a violation. In addition every mutable variable of static storage duration is followed through an instantiation of the whole public API.")
    statics(c)
    return c
