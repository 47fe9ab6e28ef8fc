"""C01 to C06: the parser, decided by abstract interpretation of the LLVM IR of /repo's sources (engine/).

The whole parser, instantiated for a dialect, a container and an acceleration configuration, is interpreted over abstract inputs of
unbounded length together with the reference automaton of the grammar (engine/spec_parse.cpp). One run yields the findings of every rule;
the properties pick theirs."""
import json, tempfile
from vlib import *

ENGINE = os.path.join(VERIF, "build/json-ai")
SRC = os.path.join(VERIF, "witness/parse.cpp")
PB = "json::_packed_bytes::packed_bytes_trait_"
CONFIGS = [("avx2", ["-mavx2"]), ("sse4.1", ["-msse4.1"]), ("sse2", []), ("uint64", ["-DTRAITS=%suint64" % PB]), ("uint32", ["-DTRAITS=%suint32" % PB]), ("none", ["-DTRAITS=%snone" % PB])]
CONTAINERS = ["string", "view", "vector"]
SECONDS = 110
RULES = {
    "C01": {"bounds", "undefined", "lifetime"},
    "C02": {"accept", "throw", "terminate"},
    "C03": {"accept", "throw", "terminate"},
    "C04": {"content"},
    "C05": {"accept", "throw", "terminate", "content", "progress", "recursion"},
    "C06": {"progress", "recursion"},
}
TEXT = {
    "C01": "Every load from the input buffer, pointer arithmetic on it and every use of an object is an obligation: inside the buffer, initialised, alive.",
    "C02": "Every path that gives a verdict is compared with the reference automaton of RFC 8259 (array or object on top, NUL ends the text, duplicate names rejected) in the state it reached for the bytes read.",
    "C03": "As C02 with the automaton extended by comments and trailing commas.",
    "C04": "The provenance of every value put into a container or returned is compared with what the automaton says the text denotes: the pieces of decoded strings, escapes and surrogate pairs included, the range of the number text, the constant, the order and key of elements.",
    "C05": "Each configuration is decided against the same automaton and the same denotation; a configuration that deviates where another does not is the violation.",
    "C06": "Every cycle of the abstract state graph and every recursive call has to consume input; recursion is allowed only after an opening bracket that the caller consumed.",
}
TECHNIQUE = "abstract interpretation of the LLVM IR of the parser against a reference automaton (interprocedural, all inputs)"


def engine():
    if not os.path.exists(ENGINE):
        r = run(["make", "-s", "-j8", "-C", os.path.join(VERIF, "engine")])
        if r.returncode:
            raise Broken("cannot build the engine: " + r.stderr[:1000])


def analyse(c, dialects, wanted):
    """Runs the matrix; yields (config, dialect, container, result or None, why not)."""
    engine()
    built = {}

    def build(cfg):
        name, flags = cfg
        try:
            return name, bitcode(SRC, os.path.join(c.tmp, "parse-%s.bc" % name), flags), None
        except Broken as e:
            return name, None, str(e)
    for name, path, why in pmap(build, CONFIGS):
        built[name] = (path, why)
    # the default configuration has to compile: without it there is nothing to analyse
    if built["sse2"][0] is None:
        raise Broken(built["sse2"][1])
    jobs = [(name, d, k) for name, _ in CONFIGS for d in dialects for k in CONTAINERS]

    def one(j):
        name, d, k = j
        path, why = built[name]
        if path is None:
            return j, None, "does not compile: " + why[:200]
        # the configurations that the library selects by itself are entered through the public functions
        entry = "w_%s_%s" % ({"strict": "parse", "jsonc": "parsec"}[d] if name in ("avx2", "sse4.1", "sse2") else d, k)
        try:
            r = run([ENGINE, path, entry, "parse-%s-%s" % (d, k), str(SECONDS), ",".join(sorted(wanted))], timeout=SECONDS + 60)
        except subprocess.TimeoutExpired:
            return j, None, "time limit"
        if r.returncode:
            return j, None, "the analysis ended with %d: %s" % (r.returncode, r.stderr[-200:])
        try:
            return j, json.loads(r.stdout), None
        except ValueError:
            return j, None, "no result"
    return pmap(one, jobs)


def where(f):
    return "include/" + f["loc"].split("include/")[-1] if "include/" in f["loc"] else f["loc"]


def check(prop):
    c = Check(prop, "proof", TECHNIQUE)
    c.explanation = TEXT[prop]
    c.trusted = ["clang 18 (front end, SROA)", "the models of the C++ standard library's strings and containers in engine/models.cpp and elems.cpp", "the reference automaton in engine/spec_parse.cpp", "the abstract interpreter"]
    c.assumptions = ["allocation does not fail and the call stack suffices", "the input container is not changed during the call"]
    dialects = {"C02": ["strict"], "C03": ["jsonc"]}.get(prop, ["strict", "jsonc"])
    rules = RULES[prop]
    results = analyse(c, dialects, rules)
    tot = {k: 0 for k in "states contexts steps accepts rejects pushes emplaces appends".split()}
    fns, decided, found, clean = set(), 0, {}, {}
    for (name, d, k), r, why in results:
        label = "%s, %s, %s" % (name, d, k)
        if r is None:
            c.undecide("%s: %s" % (label, why))
            continue
        for x in tot:
            tot[x] += r[x]
        fns.update(r["functions"])
        mine = [f for f in r["findings"] if f["rule"] in rules]
        unmodelled = [u for u in r["unmodelled"] if not (mine and "stopped after a finding" in u)]
        if prop == "C06" and any(f["rule"] == "accept" for f in r["findings"]):
            # program and automaton no longer agree on where they are: what a recursion consumes cannot be told any more
            if any(f["rule"] == "recursion" for f in mine):
                c.undecide("%s: recursion cannot be attributed after a deviation of the accepted language" % label)
            mine = [f for f in mine if f["rule"] != "recursion"]
        for f in mine:
            found.setdefault((f["rule"], f["msg"], where(f)), []).append((name, d, k, f))
        clean.setdefault((d, k), {})[name] = (mine, bool(unmodelled))
        if unmodelled:
            c.undecide("%s: not modelled: %s" % (label, "; ".join(unmodelled[:3])[:400]))
            continue
        if not r["findings"] and not (r["accepts"] and r["rejects"] and r["pushes"] and r["emplaces"]):
            c.undecide("%s: the analysis reached no verdict" % label)
            continue
        decided += 1
        if not mine:
            c.ok()
            c.sample("%s: %d abstract states, %d calling contexts, %d accepting and %d rejecting paths, no %s finding" % (label, r["states"], r["contexts"], r["accepts"], r["rejects"], "/".join(sorted(rules))))
    if prop == "C05":
        # a deviation of one configuration where another one has none
        for (d, k), per in clean.items():
            good = [n for n, (m, u) in per.items() if not m and not u]
            bad = [n for n, (m, u) in per.items() if m]
            if good and bad:
                for n in bad:
                    f = per[n][0][0]
                    c.fail("configurations differ", where(f), "%s deviates from %s (%s): %s: %s" % (n, good[0], d, f["rule"], f["msg"]), trace=[f["fn"], f["trace"]], container=k)
            elif bad:
                c.undecide("%s %s: no configuration is free of findings to compare with" % (d, k))
    else:
        for (rule, msg, loc), hits in sorted(found.items()):
            f = hits[0][3]
            c.fail(rule, loc, "%s (%s)" % (msg, ", ".join(sorted({h[0] for h in hits}))), key="%s|%s|%s" % (rule, msg, loc), trace=[f["fn"], f["trace"]], dialects=sorted({h[1] for h in hits}), containers=sorted({h[2] for h in hits}))
    c.counts.update(runs=len(results), decided_runs=decided, functions_interpreted=len(fns), functions=sorted(f.split("(")[0] for f in fns if f.startswith("json::"))[:60], **tot)
    return c
