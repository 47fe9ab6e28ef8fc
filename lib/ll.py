"""A small reader of textual LLVM IR: functions, blocks, calls with their operands and source positions."""
import re, subprocess
from vlib import *

CALL = re.compile(r"^(?:(%[\w.\-$]+|%\"[^\"]+\") = )?(?:tail |musttail |notail )?(call|invoke) (.*)$")
NAME = r'(?:[\w.\-$]+|"[^"]+")'


class Inst:
    __slots__ = ("text", "res", "op", "callee", "args", "dbg", "fn", "block")


class Func:
    def __init__(self, name):
        self.name = name
        self.blocks = {}     # label -> [Inst]
        self.succ = {}
        self.order = []
        self.params = []
        self.dbg = None


VALUE = re.compile(r'([@%]' + NAME + r'|-?\d[\w.+]*|null|undef|poison|true|false|zeroinitializer)$')


def split_args(s):
    out, depth, cur, q = [], 0, "", False
    for ch in s:
        if ch == '"':
            q = not q
        if not q:
            if ch in "([{<":
                depth += 1
            elif ch in ")]}>":
                depth -= 1
            elif ch == "," and depth == 0:
                out.append(cur.strip())
                cur = ""
                continue
        cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def value_of(arg):
    """The operand of a typed argument."""
    m = VALUE.search(arg)
    return m.group(1) if m else arg


class Module:
    def __init__(self, text):
        self.funcs, self.decls, self.strings, self.md, self.globals = {}, set(), {}, {}, {}
        cur = blk = None
        lines = text.split("\n")
        i, n = 0, len(lines)
        while i < n:
            line = lines[i]
            i += 1
            if cur is not None:
                if line == "}":
                    cur = None
                    continue
                m = re.match(r'^(%s):' % NAME, line)
                if m:
                    blk = m.group(1).strip('"')
                    cur.blocks[blk] = []
                    cur.order.append(blk)
                    continue
                s = line.strip()
                if not s:
                    continue
                # join continued lines (switch tables, invoke targets, landing pads)
                if re.match(r"^(switch|.*\binvoke\b)", s) and not re.search(r"!dbg|\]$|unwind label", s) or s.endswith("["):
                    while i < n and not re.search(r"unwind label|\]", s):
                        s += " " + lines[i].strip()
                        i += 1
                if blk is None:
                    blk = "entry"
                    cur.blocks[blk] = []
                    cur.order.append(blk)
                self._inst(cur, blk, s)
                continue
            if line.startswith("define "):
                m = re.search(r'@(%s)\((.*)$' % NAME, line)
                name = m.group(1).strip('"')
                cur = Func(name)
                depth, j, rest = 1, 0, m.group(2)
                for j, ch in enumerate(rest):
                    depth += ch == "("
                    depth -= ch == ")"
                    if depth == 0:
                        break
                cur.params = [value_of(a) for a in split_args(rest[:j])]
                d = re.search(r"!dbg (!\d+)", line)
                cur.dbg = d.group(1) if d else None
                cur.linkage = line.split("@")[0]
                self.funcs[name] = cur
                blk = None
            elif line.startswith("declare "):
                m = re.search(r'@(%s)\(' % NAME, line)
                if m:
                    self.decls.add(m.group(1).strip('"'))
            elif line.startswith("@"):
                m = re.match(r'^@(%s) = (.*)$' % NAME, line)
                self.globals[m.group(1).strip('"')] = m.group(2)
                c = re.search(r' c"((?:[^"\\]|\\..)*)"', line)
                if c:
                    self.strings["@" + m.group(1)] = re.sub(r"\\([0-9A-Fa-f]{2})", lambda x: chr(int(x.group(1), 16)), c.group(1)).rstrip("\0")
            elif line.startswith("!"):
                m = re.match(r'^(!\d+) = (?:distinct )?(.*)$', line)
                if m:
                    self.md[m.group(1)] = m.group(2)
        self._dem = None

    def _inst(self, f, blk, s):
        k = Inst()
        d = re.search(r"!dbg (!\d+)", s)
        k.dbg = d.group(1) if d else None
        k.fn, k.block = f, blk
        t = re.sub(r", !\w+(?:\.\w+)* !\d+", "", s)
        k.text = t
        k.callee, k.args, k.res = None, [], None
        m = re.match(r"^(%" + NAME + r") = (.*)$", t)
        body = t
        if m:
            k.res, body = m.group(1), m.group(2)
        body = re.sub(r"^(tail|musttail|notail) ", "", body)
        k.op = body.split(" ")[0]
        if k.op in ("call", "invoke"):
            c = re.search(r"([@%]" + NAME + r")\(", body)
            if c:
                rest, depth, j = body[c.end():], 1, 0
                for j, ch in enumerate(rest):
                    depth += ch == "("
                    depth -= ch == ")"
                    if depth == 0:
                        break
                k.callee = c.group(1).replace('"', "")
                k.args = split_args(rest[:j])
        if k.op in ("br", "switch", "invoke", "indirectbr"):
            f.succ[blk] = [x.strip('"') for x in re.findall(r"label %(" + NAME + ")", t)]
        f.blocks[blk].append(k)

    def insts(self):
        for f in self.funcs.values():
            for b in f.order:
                yield from f.blocks[b]

    def demangle(self, names):
        r = subprocess.run(["c++filt"], input="\n".join(names), stdout=subprocess.PIPE, text=True)
        return dict(zip(names, r.stdout.split("\n")))

    def file_of(self, scope):
        seen = 0
        while scope and seen < 50:
            seen += 1
            t = self.md.get(scope, "")
            m = re.search(r"\bfile: (!\d+)", t)
            if m:
                fm = self.md.get(m.group(1), "")
                n = re.search(r'filename: "([^"]*)"', fm)
                return n.group(1) if n else "?"
            m = re.search(r"scope: (!\d+)", t)
            scope = m.group(1) if m else None
        return "?"

    def where(self, inst):
        t = self.md.get(inst.dbg or "", "")
        m = re.search(r"line: (\d+).*?scope: (!\d+)", t)
        if not m:
            return inst.fn.name
        f = self.file_of(m.group(2))
        return "%s:%s" % (f.replace(REPO + "/", ""), m.group(1))


def textual(src, out, flags=(), o="-O1", passes=None):
    r = run([CLANG, "-std=c++17", o, "-Xclang", "-disable-llvm-passes", "-gline-tables-only", "-I" + INCLUDE,
             "-I" + os.path.join(VERIF, "witness"), *flags, "-emit-llvm", "-S", src, "-o", out])
    if r.returncode:
        raise Broken("cannot compile %s: %s" % (src, r.stderr[:2000]))
    if passes:
        r = run([OPT, "-passes=" + passes, "-S", out, "-o", out])
        if r.returncode:
            raise Broken("opt: " + r.stderr[:1000])
    return Module(open(out).read())
