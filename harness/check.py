#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property of properties.jsonl for the tree in /repo.

Exit 0: held on everything explored.  Exit 1 and a VIOLATION line: it is broken.  Exit 2: the check itself failed."""
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)

import build_lazyfs  # noqa: E402
import plan  # noqa: E402
import suites  # noqa: E402


def findings(prop):
    """The known findings of this property: lines `finding: property=<id> match=<substring of the description> <text>`."""
    out = []
    try:
        for line in open(os.path.join(VERIF, "known-findings.txt")):
            if line.startswith("finding: property=" + prop + " "):
                out.append(line.strip())
    except FileNotFoundError:
        pass
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    exe, tree = build_lazyfs.build("plain")
    results = []
    try:
        for s in plan.PLAN[prop](exe, seed, tier):
            r = s()
            results.append(r)
            print(f"  {r.name}: {r.states} states, {r.transitions} transitions, {r.traces} runs of LazyFS with {r.steps} steps, "
                  f"{len(r.bad)} differences {r.notes or ''} ({r.seconds:.1f} s)", flush=True)
            if r.bad:
                break
    finally:
        bad = [b for r in results for b in r.bad]
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
            "coverage": {
                "states": sum(r.states for r in results), "transitions": sum(r.transitions for r in results),
                "traces_validated_against_impl": sum(r.traces for r in results), "impl_steps": sum(r.steps for r in results),
                "suites": [{"name": r.name, "states": r.states, "transitions": r.transitions, "runs": r.traces, "steps": r.steps,
                            "differences": len(r.bad), "notes": r.notes, "seconds": round(r.seconds, 1)} for r in results],
                "samples": [x for r in results for x in r.samples][:6], "tree": tree,
            },
            "assumptions": plan.ASSUMPTIONS, "wall_s": round(time.time() - t0, 1), "violations": len(bad),
        }
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    for line in findings(prop):
        print("KNOWN-FINDING: " + line[len("finding: "):])
    if bad:
        os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
        for k, b in enumerate(bad[:3]):
            path = os.path.join(VERIF, "evidence", "replay", f"{prop}-{k + 1}.json")
            with open(path, "w") as f:
                json.dump(b, f, indent=1)
            print(f"  in suite {b['suite']}: {b['what']}; step {b.get('step')}: {json.dumps(b.get('op'))}")
            print("    specification: " + json.dumps(b.get("expected"))[:1200])
            print("    LazyFS:        " + json.dumps(b.get("observed"))[:1200])
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    print(f"{prop}: held ({time.time() - t0:.0f} s)")
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except build_lazyfs.BuildError as e:
        print("cannot build /repo:", e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
