"""Has TLC check recorded runs against TraceLazyFS.tla (or another trace module)."""
import json

import tlc


def check(runs, module="TraceLazyFS", workers=8, timeout=600, invariants=("Inv",), strip=("meta",), spec="Spec"):
    """Gives (rejected indices, TLC result).  A run that TLC does not accept, or in which an invariant fails, is rejected."""
    if not runs:
        return [], None
    text = json.dumps([{k: v for k, v in r.items() if k not in strip} for r in runs])
    acc = set()

    def line(s):
        if s.startswith("A "):
            acc.add(int(s[2:]) - 1)

    cfg = tlc.cfg_text(spec=spec, constants=dict(Diagnose=False), invariants=invariants)
    r = tlc.run(module, cfg, files={"traces.json": text}, workers=workers, timeout=timeout, lines=line)
    if r.rc not in (0, 12, 13):  # 12: an invariant is violated
        raise tlc.TLCError(r.out[-4000:])
    if r.rc:
        # an invariant: find the run, go on with the others
        bad = []
        if len(runs) == 1:
            return [0], r
        half = len(runs) // 2
        a, _ = check(runs[:half], module, workers, timeout, invariants, strip, spec)
        b, _ = check(runs[half:], module, workers, timeout, invariants, strip, spec)
        return a + [half + i for i in b], r
    return [i for i in range(len(runs)) if i not in acc and runs[i]["ev"]], r


def diagnose(run, module="TraceLazyFS", timeout=120, strip=("meta",), spec="Spec"):
    """Where a rejected run stops being explainable: (index of the event, what the specification would allow there)."""
    text = json.dumps([{k: v for k, v in run.items() if k not in strip}])
    at = {}

    def line(s):
        if s.startswith("D "):
            v = json.loads(s[2:])
            at.setdefault(v["pos"], []).append(v.get("may"))

    r = tlc.run(module, tlc.cfg_text(spec=spec, constants=dict(Diagnose=True)), files={"traces.json": text}, workers=1, timeout=timeout,
                lines=line)
    if r.rc not in (0, 12, 13):
        raise tlc.TLCError(r.out[-4000:])
    pos = max(at) if at else 1
    return pos - 1, at.get(pos, [])
