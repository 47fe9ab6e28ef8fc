#!/usr/bin/env python3
"""run.py PROPERTY: decides one property on /repo's current source."""
import importlib, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(os.path.dirname(HERE), "lib")]
sys.dont_write_bytecode = True
import vlib

def main():
    prop = sys.argv[1]
    mod = importlib.import_module(prop.lower())
    try:
        vlib.require_headers()
        check = mod.check()
        return check.finish()
    except vlib.Broken as e:
        print("BROKEN: property=%s %s" % (prop, e))
        check = vlib.Check.current
        if check is not None and any(v["key"] not in check.known for v in check.violations):
            check.undecide("the rest of the check could not run: %s" % str(e)[:300])
            return check.finish()
        return 2

sys.exit(main())
