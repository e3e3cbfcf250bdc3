#!/usr/bin/env python3
"""check.py ID: decides property ID for the tree in /repo (tier from VERIF_TIER, seed from VERIF_SEED).
check.py --replay FILE: runs a recorded violation again."""
import json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)) + "/lib")
from run import Run, Broken, Violation, VERIF, known_findings
import plans


def main():
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    for a in sys.argv[2:]:
        tier = a.lstrip("-")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    r = Run(prop, tier, seed)
    rc, viol = 2, 0
    try:
        plans.PLANS[prop](r)
        rc = 0
    except Violation as v:
        r.log("VIOLATION: " + v.what)
        rc, viol = 1, 1
        line = "VIOLATION property=%s replay=%s" % (prop, v.replay)
    except Broken as b:
        r.log("no answer: %s" % b)
    except Exception:
        traceback.print_exc()
    finally:
        r.close()
    if rc != 2:
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        r.cov["exhaustive"] = False
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": r.cov,
              "assumptions": plans.ASSUMPTIONS + plans.EXTRA_ASSUMPTIONS.get(prop, []), "wall_s": round(time.time() - r.t0, 1), "violations": viol}
        with open(VERIF + "/evidence/%s.json" % prop, "w") as f:
            json.dump(ev, f, indent=1)
    if rc == 1:
        print(line, flush=True)
    elif rc == 0:
        r.log("holds on everything explored")
    sys.stdout.flush()
    os._exit(rc)


def replay(path):
    j = json.load(open(path))
    r = Run(j["property"], "quick", j.get("seed", 1))
    if "startup" in j:
        print(plans.startup_case(r, plans.startup_program(r, *j["startup"]["build"]), j["startup"]["case"], r.dir + "/res") or "holds")
        return r.close()
    exe = r.driver(j["driver_variant"])
    if "scenario" in j:
        r.scenarios([j["scenario"]], {}, j["driver_variant"], j["env"])
        print("holds")
        return
    n = len(open(j["behaviour"]).read().splitlines())
    base = j["line_in_run"] - n + 1
    _, f = r.drive(exe, j["behaviour"], 0, n, j["args"] + ["-base", str(base)], j["env"])
    r.close()
    print(json.dumps(f, indent=1) if f else "holds")


main()
