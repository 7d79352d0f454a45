#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from seeded_defs.py: mkseeded.py [ID...].  Works on a copy of /repo's HEAD."""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from seeded_defs import BUGS
BASE = "bf80791"
only = sys.argv[1:]
for b in BUGS:
    i = b["id"]
    if only and i not in only:
        continue
    out = os.path.join(HERE, "..", "seeded", i)
    os.makedirs(out, exist_ok=True)
    t = tempfile.mkdtemp()
    try:
        files = sorted({e[0] for e in b["edits"]})
        diff = ""
        orig = 0
        for f in files:
            old = subprocess.check_output(["git", "-C", "/repo", "show", "HEAD:" + f], text=True)
            base = subprocess.check_output(["git", "-C", "/repo", "show", BASE + ":" + f], text=True).split("\n")
            new = old
            for e in b["edits"]:
                if e[0] == f:
                    assert new.count(e[1]) == 1, (i, f, new.count(e[1]), e[1])
                    new = new.replace(e[1], e[2])
            for n, x in (("a", old), ("b", new)):
                p = os.path.join(t, n, f)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                open(p, "w").write(x)
            r = subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a/" + f, "b/" + f], cwd=t, capture_output=True, text=True)
            d = r.stdout
            for line in d.split("\n"):
                if line.startswith("-") and not line.startswith("---") and line[1:].strip() and line[1:] in base:
                    orig += 1
            diff += d
        if not orig:
            print("WARNING", i, "changes no original line")
        open(os.path.join(out, "patch.diff"), "w").write(diff)
    finally:
        shutil.rmtree(t)
    shutil.copy(os.path.join(HERE, "demolib.py"), out)
    shutil.copy(os.path.join(HERE, "..", "harness", "fuseclient.py"), out)
    open(os.path.join(out, "demo.py"), "w").write("from demolib import *\n\n" + b["demo"].strip() + "\n\nprint(\"fine\")\n")
    sh = os.path.join(out, "demo.sh")
    open(sh, "w").write("#!/bin/bash\nexec timeout 250 python3 \"$(dirname \"$0\")/demo.py\"\n")
    os.chmod(sh, 0o755)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
