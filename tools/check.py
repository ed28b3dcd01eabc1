#!/usr/bin/env python3
"""check.py PROPERTY | replay FILE | setup"""
import json, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common as C

def go(prop, race, q, t, rule):
    import gosim
    return gosim.check(prop, race, q, t, rule)

def plug(prop, q, t):
    import plugsim
    return plugsim.check(prop, q, t)

CHECKS = {
    "C01": lambda: go("C01", True, 45, 760, "seeded plan: 1-4 caller goroutines with up to 10 Validate/ValidateAll/mutate operations over private and shared generated messages of 13 types; schedule, map seed and child faults drawn from the seed. Non-trivial: several clients with at least one context switch, or a clock change; counted once per distinct schedule+message hash"),
    "C02": lambda: go("C02", False, 40, 760, "seeded plan over map-carrying messages; every map iteration start and hash seed is drawn from the plan's map seed. Counted once per distinct message set and schedule hash"),
    "C03": lambda: go("C03", False, 40, 760, "seeded plan over messages with lt_now/gt_now/within rules; clock starts between 1971 and 2120 and jumps between and inside calls. Non-trivial: several clients switching or at least one clock change"),
    "C04": lambda: go("C04", False, 40, 760, "seeded plan with fail-fast and collect-all calls on the same messages, child validators (hand-written full, legacy, none) failing by content and by injected fault at the k-th child call. Counted once per distinct message set and schedule hash"),
}

def cc(prop, q, t):
    import ccsim
    return ccsim.check(prop, q, t)

CHECKS["C05"] = lambda: cc("C05", 45, 760)
CHECKS["C06"] = lambda: cc("C06", 45, 760)
CHECKS["C09"] = lambda: cc("C09", 40, 760)
CHECKS["C07"] = lambda: plug("C07", 45, 760)
CHECKS["C08"] = lambda: plug("C08", 45, 760)

def java(prop, q, t):
    import javasim
    return javasim.check(prop, q, t)

for _p, _q in (("C10", 35), ("C11", 35), ("C12", 40), ("C13", 45), ("C14", 35)):
    CHECKS[_p] = lambda p=_p, q=_q: java(p, q, 760)

def py(prop, q, t):
    import pysim
    return pysim.check(prop, q, t)

CHECKS["C15"] = lambda: py("C15", 30, 760)
CHECKS["C25"] = lambda: py("C25", 40, 760)

def main():
    a = sys.argv[1]
    try:
        if a == "replay":
            d = json.load(open(sys.argv[2]))
            mod = __import__(d["kind"])
            return mod.replay(os.path.abspath(sys.argv[2]))
        if a == "setup":
            for t in ("go", "protoc"):
                C.sh([t, "version" if t == "go" else "--version"])
            print("setup ok")
            return 0
        return CHECKS[a]()
    except C.BuildError as e:
        C.die(str(e))
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        C.die("check failed")

if __name__ == "__main__":
    sys.exit(main())
