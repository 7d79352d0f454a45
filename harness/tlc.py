"""Runs TLC on a module of /verif/spec."""
import json
import os
import re
import shutil
import subprocess
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TLCError(Exception):
    """TLC did not run to the end: an error of the check, not of LazyFS."""


class Result:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        m = re.search(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(m.group(1)) if m else 0
        self.violated = re.findall(r"(?:Invariant|property|Action property) (\S+) is violated|Temporal properties were violated", out)

    @property
    def ok(self):
        return self.rc == 0


def cfg_text(spec="Spec", constants=(), invariants=(), properties=(), constraints=(), actions=(), view=None, post=None,
             deadlock=False):
    s = f"SPECIFICATION {spec}\n" + (f"VIEW {view}\n" if view else "")
    for k, l in (("INVARIANT", invariants), ("PROPERTY", properties), ("CONSTRAINT", constraints),
                 ("ACTION_CONSTRAINT", actions)):
        s += "".join(f"{k} {x}\n" for x in l)
    if post:
        s += f"POSTCONDITION {post}\n"
    s += f"CHECK_DEADLOCK {'TRUE' if deadlock else 'FALSE'}\n"
    if constants:
        s += "CONSTANTS\n" + "".join(f"  {k} = {value(v)}\n" for k, v in dict(constants).items())
    return s


def value(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, str):
        return f'"{v}"'
    if isinstance(v, (set, frozenset, list, tuple)):
        return "{" + ", ".join(value(x) for x in v) + "}"
    return str(v)


def run(module, cfg, files=None, workers=8, timeout=600, args=(), mem="6g", lines=None, env=None):
    """Runs TLC in a directory of its own (copies of the modules, `files`: name -> text).  lines: called for each printed
    line that is a string."""
    d = tempfile.mkdtemp(prefix="vtlc")
    try:
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), d)
        for n, t in (files or {}).items():
            with open(os.path.join(d, n), "w") as f:
                f.write(t)
        with open(os.path.join(d, "run.cfg"), "w") as f:
            f.write(cfg)
        cmd = ["java", f"-Xmx{mem}", "-Xss16m", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + d, "-cp", CP, "tlc2.TLC", "-workers", str(workers),
               "-metadir", os.path.join(d, "states"), "-noGenerateSpecTE", "-config", "run.cfg", *args, module + ".tla"]
        e = dict(os.environ)
        e.update(env or {})
        p = subprocess.Popen(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e)
        import threading
        t = threading.Timer(timeout, p.kill)
        t.start()
        out = []
        for line in p.stdout:
            if line.startswith('"') and lines is not None:
                lines(json.loads(line))
            else:
                out.append(line)
        rc = p.wait()
        t.cancel()
        out = "".join(out)
        if rc < 0:
            raise TLCError(f"TLC on {module} ended by signal {-rc} (timeout {timeout} s)\n{out[-2000:]}")
        return Result(rc, out)
    finally:
        shutil.rmtree(d, ignore_errors=True)
