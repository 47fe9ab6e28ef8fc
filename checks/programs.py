"""C07 and C09 to C26: the value layer, decided by abstract interpretation of programs over unknown values.

Each program in witness/p_*.cpp builds values of which only the C++ type is known (any kind, any size, any content), applies operations of
the library and states with must() what has to hold then. The programs are compiled together with /repo's headers and never executed:
json-ai interprets their LLVM IR with symbolic contents and follows every path of the library code that some value takes. What it cannot
represent is reported as undecided."""
import json
from vlib import *
from parsing import engine, ENGINE, where

NM = "llvm-nm-18" if shutil.which("llvm-nm-18") else "llvm-nm"
SECONDS = 40
BUDGET = 600
TECHNIQUE = "abstract interpretation of the LLVM IR of programs over unknown values, interprocedural through the library"


def check(prop, text, sources=None, flags=(), only=None, mode="harness"):
    c = Check(prop, "proof", TECHNIQUE)
    c.explanation = text
    c.trusted = ["clang 18 (front end, SROA)", "the models of the C++ standard library's strings, containers, optional, variant and number conversions in engine/", "the programs in witness/p_%s.cpp" % prop.lower(), "the abstract interpreter"]
    c.assumptions = ["the call stack suffices"]
    engine()
    jobs = []
    for name in sources or ["p_%s.cpp" % prop.lower()]:
        try:
            bc = bitcode(os.path.join(VERIF, "witness", name), os.path.join(c.tmp, name + ".bc"), flags)
        except Broken as e:
            c.undecide("%s does not compile: %s" % (name, str(e)[:600]))
            continue
        r = run([NM, "--defined-only", "--format=just-symbols", bc])
        names = sorted(n for n in r.stdout.split() if n.startswith("h_") and (only is None or only(n)))
        if not names:
            raise Broken("no programs in " + name)
        # programs next to each other take about the same time
        n = min(24, len(names)) if mode == "harness" else 1
        jobs += [(bc, names[i::n]) for i in range(n)]

    def one(j):
        bc, names = j
        if time.time() - c.start > BUDGET:
            return j, None, "time limit"
        try:
            r = run([ENGINE, bc, "=" + ",".join(names) if mode == "harness" else "h_", mode, str(SECONDS)], timeout=min(800 - (time.time() - c.start), SECONDS * len(names) + 60))
        except subprocess.TimeoutExpired:
            return j, None, "time limit"
        try:
            return j, json.loads(r.stdout), "the analysis ended with %d: %s" % (r.returncode, r.stderr[-200:])
        except ValueError:
            # what was finished before it ended
            try:
                d = json.loads(r.stdout[:r.stdout.rindex("\n,")] + "]}")
            except ValueError:
                d = None
            return j, d, "the analysis ended with %d: %s" % (r.returncode, r.stderr[-200:])
    musts = states = programs = 0
    fns, found = set(), {}
    for (bc, names), r, why in pmap(one, jobs):
        seen = set()
        for p in r["programs"] if r else []:
            seen.add(p["program"])
            programs += 1
            musts += p["musts"]
            states += p["states"]
            fns.update(p["functions"])
            short = p["program"][2:] if p["program"].startswith("h_") else p["program"]
            for f in p["findings"]:
                found.setdefault((f["rule"], f["msg"], where(f) or f["fn"].split("(")[0]), []).append((short, f))
            rest = [u for u in p["unmodelled"] if not (p["findings"] and "stopped after a finding" in u)]
            if rest:
                c.undecide("%s: %s" % (short, "; ".join(rest[:3])[:400]))
            elif not p["musts"] and not p["findings"] and mode == "harness":
                c.undecide("%s: no obligation was reached" % short)
            elif not p["findings"]:
                c.ok(max(1, p["musts"]))
                c.sample("%s: %d abstract states, %d obligations met on all paths" % (short, p["states"], p["musts"]))
        for n in names:
            if n not in seen:
                c.undecide("%s: %s" % (n[2:], why))
    for (rule, msg, loc), hits in sorted(found.items()):
        f = hits[0][1]
        c.fail(rule, hits[0][0] if rule == "must" else loc, "%s (%s)" % (msg, ", ".join(sorted({h[0] for h in hits})[:8])), key="%s|%s|%s" % (rule, msg, hits[0][0]), trace=[f["fn"], f["loc"], f["trace"]])
    c.counts.update(programs=programs, obligations_met=musts, abstract_states=states, functions_interpreted=len(fns), functions=sorted(f.split("(")[0] for f in fns if f.startswith("json::"))[:80])
    return c
