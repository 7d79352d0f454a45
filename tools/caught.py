#!/usr/bin/env python3
"""caught.py [ID...]: runs the check of each planted bug's property against a copy of /repo that has the bug; writes tools/caught.json."""
import json, os, re, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from seeded_defs import BUGS
F = os.path.join(HERE, "caught.json")
res = json.load(open(F)) if os.path.exists(F) else {}
W = "/tmp/caught"
for b in BUGS:
    if len(sys.argv) > 1 and b["id"] not in sys.argv[1:]: continue
    shutil.rmtree(W, ignore_errors=True); os.makedirs(W)
    for d in ("lazyfs", "libs"): shutil.copytree("/repo/" + d, f"{W}/{d}")
    for d in ("harness", "spec"): shutil.copytree(f"{V}/{d}", f"{W}/verif/{d}")
    for d in ("known-findings.txt", "properties.jsonl", "MANIFEST.json"): shutil.copy(f"{V}/{d}", f"{W}/verif/{d}")
    subprocess.check_call(["patch", "-s", "-p1", "-d", W, "-i", f"{V}/seeded/{b['id']}/patch.diff"])
    e = dict(os.environ, LAZYFS_REPO=W, VERIF_SEED="1", VERIF_TIER="quick")
    r = subprocess.run([sys.executable, f"{W}/verif/harness/check.py", b["property"], "quick"], env=e, capture_output=True, text=True, timeout=1800)
    s = sorted(set(re.findall(r"in suite ([^:]*):", r.stdout + r.stderr)))
    res[b["id"]] = ", ".join(s) if r.returncode == 1 and s else f"not caught (exit {r.returncode})"
    print(b["id"], res[b["id"]], flush=True)
    json.dump(res, open(F, "w"), indent=1, sort_keys=True)
shutil.rmtree(W, ignore_errors=True)
