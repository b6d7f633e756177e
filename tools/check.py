#!/usr/bin/env python3
"""check.py C01 [C02 ...]: decides properties on /repo's current working tree."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import framework
from suites import SUITES


def main():
    rc = 0
    for p in sys.argv[1:]:
        ctx = None
        try:
            ctx = framework.Ctx(p)
            mod, fn = SUITES[p]
            getattr(importlib.import_module(mod), fn)(ctx)
            r = ctx.finish()
            print("%s: %s (%.0f s, %d operations in %d traces, %d specification states)" %
                  (p, "violated" if r else "ok", __import__("time").time() - ctx.t0, ctx.events, ctx.traces, ctx.states))
        except framework.Infra as e:
            print("%s: check cannot run: %s" % (p, e))
            r = 2
        except Exception:
            traceback.print_exc()
            r = 2
        rc = max(rc, r) if rc != 1 else 1
    return rc


if __name__ == "__main__":
    sys.exit(main())
