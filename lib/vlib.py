"""Common parts of the checks: obligations, findings, evidence, verdict."""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
INCLUDE = os.path.join(REPO, "include")
CLANG = "clang++-18" if shutil.which("clang++-18") else "clang++"
GCC = "g++"
OPT = "opt-18" if shutil.which("opt-18") else "opt"


class Broken(Exception):
    """The check itself cannot give an answer."""


class Check:
    current = None

    def __init__(self, prop, level, technique):
        Check.current = self
        self.prop = prop
        self.level = level
        self.technique = technique
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.start = time.time()
        self.obligations = 0
        self.discharged = 0
        self.violations = []      # dicts with rule, where, what
        self.undecided = []       # texts
        self.samples = []
        self.counts = {}
        self.assumptions = []
        self.trusted = []
        self.explanation = ""
        self.known = load_known(prop)
        self.tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)

    def ok(self, n=1):
        self.obligations += n
        self.discharged += n

    def fail(self, rule, where, what, key=None, **extra):
        self.obligations += 1
        v = {"rule": rule, "where": where, "what": what, "key": key or "%s|%s" % (rule, what)}
        v.update(extra)
        if v["key"] not in [x["key"] for x in self.violations]:
            self.violations.append(v)

    def undecide(self, text):
        self.obligations += 1
        if text not in self.undecided:
            self.undecided.append(text)

    def sample(self, text, limit=12):
        if len(self.samples) < limit:
            self.samples.append(text)

    def finish(self):
        shutil.rmtree(self.tmp, ignore_errors=True)
        known = [v for v in self.violations if v["key"] in self.known]
        new = [v for v in self.violations if v["key"] not in self.known]
        ev_dir = os.path.join(VERIF, "evidence")
        os.makedirs(ev_dir, exist_ok=True)
        cov = {
            "obligations": self.obligations,
            "discharged": self.discharged,
            "checker_cmd": "python3 checks/run.py %s" % self.prop,
            "trusted_base": self.trusted,
            "rule": self.technique,
            "explanation": self.explanation,
            "samples": self.samples,
        }
        cov.update(self.counts)
        if self.undecided:
            cov["undecided"] = self.undecided
        if known:
            cov["known_findings"] = known
        if new:
            cov["findings"] = new[:50]
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
            "coverage": cov, "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.start, 2), "violations": len(new),
        }
        path = os.path.join(ev_dir, self.prop + ".json")
        with open(path + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(path + ".tmp", path)
        print("%s: %d obligations, %d discharged, %d undecided, %.1f s" %
              (self.prop, self.obligations, self.discharged, len(self.undecided), ev["wall_s"]))
        for u in self.undecided[:10]:
            print("UNDECIDED: property=%s %s" % (self.prop, u))
        for v in known:
            print("KNOWN-FINDING: property=%s %s: %s" % (self.prop, v["where"], v["what"]))
        rep = os.path.join(ev_dir, self.prop + ".violation.json")
        if os.path.exists(rep):
            os.remove(rep)
        if new:
            with open(rep, "w") as f:
                json.dump(new, f, indent=1)
            for v in new[:20]:
                print("  %s: [%s] %s" % (v["where"], v["rule"], v["what"]))
                for line in v.get("trace", [])[:30]:
                    print("      " + line)
            print("VIOLATION property=%s replay=%s" % (self.prop, rep))
            sys.stdout.flush()
            return 1
        return 0


def load_known(prop):
    keys = set()
    try:
        for line in open(os.path.join(VERIF, "known_findings.txt")):
            m = re.match(r"known: property=(\S+) key=(.*?) :: ", line)
            if m and m.group(1) == prop:
                keys.add(m.group(2))
    except FileNotFoundError:
        pass
    return keys


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", **kw)


def pmap(fn, items, workers=None):
    with ThreadPoolExecutor(max_workers=workers or min(8, os.cpu_count() or 4)) as ex:
        return list(ex.map(fn, items))


def syntax(text, path, flags=(), compiler=CLANG, std="c++17"):
    """Type-checks a translation unit without generating code."""
    with open(path, "w") as f:
        f.write(text)
    return run([compiler, "-std=" + std, "-fsyntax-only", "-I" + INCLUDE, "-I" + os.path.join(VERIF, "witness"), *flags, path])


MODEL = []


def model_headers():
    """A copy of one header of the standard library in which the loop of find_if goes element by element, as the standard describes it; the one
    that is installed goes in steps of four, counting them beforehand."""
    if not MODEL:
        d = tempfile.mkdtemp(prefix="hdr")
        import atexit
        atexit.register(shutil.rmtree, d, True)
        r = run([CLANG, "-std=c++17", "-x", "c++", "-M", "-include", "algorithm", "/dev/null"])
        m = re.search(r"\S+/bits/stl_algobase\.h", r.stdout)
        MODEL.append(d)
        if m:
            t = open(m.group(0)).read()
            k = re.search(r"__find_if\(_RandomAccessIterator __first.*?\n    \{(.*?)\n    \}\n", t, re.S)
            if k and "__trip_count" in k.group(1):
                t = t[:k.start(1)] + "\n      for (; __first != __last; ++__first)\n        if (__pred(__first))\n          break;\n      return __first;" + t[k.end(1):]
                os.mkdir(os.path.join(d, "bits"))
                open(os.path.join(d, "bits", "stl_algobase.h"), "w").write(t)
    return MODEL[0]


def bitcode(src, out, flags=(), passes="function(sroa)", o="-O1"):
    r = run([CLANG, "-std=c++17", o, "-Xclang", "-disable-llvm-passes", "-gline-tables-only", "-I" + INCLUDE,
             "-I" + os.path.join(VERIF, "witness"), "-I" + model_headers(), *flags, "-emit-llvm", "-c", src, "-o", out + ".0"])
    if r.returncode:
        raise Broken("cannot compile %s: %s" % (src, r.stderr[:2000]))
    if passes:
        r2 = run([OPT, "-passes=" + passes, out + ".0", "-o", out])
        if r2.returncode:
            raise Broken("opt: " + r2.stderr[:1000])
        os.remove(out + ".0")
    else:
        os.replace(out + ".0", out)
    return out


def require_headers():
    if not os.path.exists(os.path.join(INCLUDE, "json.hpp")):
        raise Broken("no json.hpp in " + INCLUDE)
