"""The suites a check is put together from.  Each one explores something with TLC, takes the real LazyFS along or records it,
and gives a Result: what was covered and what differed."""
import atexit
import json
import multiprocessing as mp
import os
import random
import shutil
import tempfile
import time
import zlib

import build_lazyfs
import conc
import gen
import graph
import stamps
import tlc
import validate
from driver import Geometry

WORKERS = min(8, os.cpu_count() or 8)
STOP_AFTER = 3      # differences after which a suite need not go on


class Result:
    def __init__(self, name):
        self.name = name
        self.states = self.transitions = self.traces = self.steps = 0
        self.samples = []
        self.bad = []       # [{"suite", "what", ...}]
        self.notes = {}
        self.seconds = 0.0


_scratch = None


def scratch():
    """Directories on a tmpfs and on the disk, if there are two: ext4 gives the inode of a file that is gone to the next one."""
    global _scratch
    if _scratch is None:
        bases = {os.stat(d).st_dev: d for d in (tempfile.gettempdir(), "/dev/shm") if os.access(d, os.W_OK)}
        _scratch = [tempfile.mkdtemp(prefix="vlazyfs", dir=d) for d in bases.values()]
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and [shutil.rmtree(d, ignore_errors=True) for d in _scratch])
    return _scratch


def seed_of(seed, *what):
    return seed * 1000003 + zlib.crc32(repr(what).encode())


# ---- a pool that stops early (work functions are module level, their data is inherited by fork)
_job = {}


def _call(i):
    try:
        return i, _job["f"](i, os.path.join(_job["dir"][zlib.crc32(repr(i).encode()) % len(_job["dir"])], f"w{os.getpid()}"))
    except Exception as e:
        import traceback
        return i, {"what": "harness", "error": repr(e), "traceback": traceback.format_exc()}


def pool_map(f, items, enough=None, chunk=4):
    """[(item, result)] in order; stops when enough(result) was true STOP_AFTER times."""
    _job.update(f=f, dir=scratch())
    out, n = [], 0
    ctx = mp.get_context("fork")
    with ctx.Pool(WORKERS) as p:
        for i, x in p.imap_unordered(_call, items, chunksize=chunk):
            if isinstance(x, dict) and x.get("what") == "harness":
                raise RuntimeError(x["traceback"])
            out.append((i, x))
            if enough and enough(x):
                n += 1
                if n >= STOP_AFTER:
                    p.terminate()
                    break
    return sorted(out, key=lambda t: t[0])


def environmental(x):
    """Could a slow machine be the reason?"""
    return "Hang" in repr(x.get("observed")) or "HANG" in repr(x.get("observed"))


# ---- specification -> implementation
def graph_suite(exe, seed, scope, maxops, maxlen=4, bs=2, bpp=1, pages=16, limit=None, deep=0.3, geos=None, names=None, reals=None):
    """Every transition of a bounded state graph (or `limit` steps of it)."""
    t0 = time.time()
    r = Result(f"graph {scope} bs={bs} bpp={bpp} pages={pages} ops<={maxops} len<={maxlen}")
    consts = dict(Scope=scope, BS=bs, BPP=bpp, PAGES=pages, EV=False, MaxLen=maxlen, MaxOps=maxops)
    g = graph.explore(consts)
    r.states, r.transitions = len(g.states), len(g.edges)
    ws, left = graph.walks(g, seed_of(seed, scope), limit=limit)
    r.notes["edges not taken"] = left
    cfg = dict(bs=bs, bpp=bpp, pages=pages, ev=False)
    geos = geos or [Geometry(bs)]
    tables = [{}] if names is None else names
    # block, blocks per page: LazyFS's own geometry, which need not be that of the specification; enough pages for all
    pairs = [(geo, None if real is None else dict(block=real[0], bpp=real[1], pages=4 * ((maxlen // geo.bs + 2) * geo.size // real[0] + 3)))
             for geo in geos for real in reals or [None]]
    if reals:
        r.name += f" in {len(pairs)} geometries"

    def one(i, work):
        return graph.replay(exe, work, g, ws[i], pairs[i % len(pairs)][0], cfg, names=tables[i % len(tables)], deep=deep,
                            seed=seed_of(seed, i), usage=bpp == 1 and not reals, real=pairs[i % len(pairs)][1])

    res = pool_map(one, range(len(ws)), enough=lambda x: x is not None)
    r.traces = len(res)
    r.steps = sum(len(ws[i]) for i, _ in res)
    if ws:
        w = ws[0]
        r.samples.append({"suite": r.name, "walk": [dict(g.edges[i][1], reply=g.edges[i][2]) for i in w[:12]]})
    for i, x in res:
        if x:
            if environmental(x):
                again = [graph.replay(exe, os.path.join(scratch()[k % len(scratch())], "again"), g, ws[i], pairs[i % len(pairs)][0], cfg,
                                      names=tables[i % len(tables)], deep=deep, seed=seed_of(seed, i), real=pairs[i % len(pairs)][1]) for k in range(2)]
                if not any(again):
                    r.notes["not reproduced"] = r.notes.get("not reproduced", 0) + 1
                    continue
                x = next(y for y in again if y)
            x.update(suite=r.name, kind="graph", cfg=cfg, geo=dict(size=pairs[i % len(pairs)][0].size, cuts=pairs[i % len(pairs)][0].cuts),
                     names=tables[i % len(tables)], real=pairs[i % len(pairs)][1])
            r.bad.append(x)
    r.seconds = time.time() - t0
    return r


# ---- the specification alone, deeper
def model_suite(scope, maxops, maxlen=4, bs=2, bpp=1, pages=16, ev=False, timeout=800):
    t0 = time.time()
    r = Result(f"model {scope} bs={bs} bpp={bpp} pages={pages} ev={ev} ops<={maxops} len<={maxlen}")
    cfg = tlc.cfg_text(constants=dict(Scope=scope, BS=bs, BPP=bpp, PAGES=pages, EV=ev, MaxLen=maxlen, MaxOps=maxops),
                       invariants=["Inv"], properties=["Props"], view="MCView", constraints=["Bound"])
    x = tlc.run("MCLazyFS", cfg, timeout=timeout, lines=lambda s: None, mem="16g")
    if x.rc:
        raise tlc.TLCError(x.out[-4000:])
    r.states, r.transitions = x.distinct, x.generated
    r.seconds = time.time() - t0
    return r


def tlc_suite(module, constants, invariants=(), properties=(), constraints=(), view=None, timeout=800, spec="Spec", deadlock=False, note=None):
    """Any other module of the specification."""
    t0 = time.time()
    r = Result(f"model {module} " + " ".join(f"{k}={v}" for k, v in constants.items()))
    x = tlc.run(module, tlc.cfg_text(spec=spec, constants=constants, invariants=invariants, properties=properties, constraints=constraints,
                                     view=view, deadlock=deadlock), timeout=timeout, mem="12g")
    if x.rc:
        raise tlc.TLCError(x.out[-4000:])
    r.states, r.transitions = x.distinct, x.generated
    r.seconds = time.time() - t0
    return r


# ---- implementation -> specification
# what records runs, and the specification that is to accept them
PLAIN = (gen, dict(module="TraceLazyFS", spec="Spec"))
TIMED = (stamps, dict(module="TraceTimes", spec="TSpec"))


def record(exe, work, seed, prof, kind=PLAIN):
    return kind[0].Run(exe, work, seed, prof).go()


def times_suite(*a, **k):
    return trace_suite(*a, **k, kind=TIMED)


def trace_suite(exe, seed, profile, count, over=None, batch=1200, kind=PLAIN):
    """Random runs of the real LazyFS, checked against the specification by TLC."""
    t0 = time.time()
    prof = dict(kind[0].PROFILES[profile], **(over or {}))
    r = Result(f"traces {profile}" + (f" {sorted(over)}" if over else ""))

    def one(i, work):
        return record(exe, work, seed_of(seed, profile, i), prof, kind)

    def stuck(x):
        return any(e["r"]["e"] == "HANG" or e["r"]["e"].startswith("LOOKING") for e in x["ev"])

    runs = [x for _, x in pool_map(one, range(count), enough=stuck)]
    for k in range(0, len(runs), batch):
        part = runs[k:k + batch]
        bad, res = validate.check(part, **kind[1])
        r.states += res.distinct
        r.transitions += res.generated
        for i in bad[:STOP_AFTER]:
            x = confirm(exe, part[i], prof, r, kind)
            if x:
                r.bad.append(x)
        if len(r.bad) >= STOP_AFTER:
            break
    r.traces = len(runs)
    r.steps = sum(len(x["ev"]) for x in runs)
    if runs:
        r.samples.append({"suite": r.name, "cfg": runs[0]["cfg"], "events": [dict(e["o"], reply=e["r"]) for e in runs[0]["ev"][:12]]})
    r.seconds = time.time() - t0
    return r


def confirm(exe, run, prof, r, kind=PLAIN):
    """A description of a rejected run; None if nothing but a slow machine can be meant."""
    last = run["ev"][-1]["r"]["e"] if run["ev"] else ""
    if "HANG" in last or "Hang" in last or last.startswith("LOOKING"):
        for k in range(2):
            again = record(exe, os.path.join(scratch()[k % len(scratch())], "again"), run["meta"]["seed"], prof, kind)
            bad, _ = validate.check([again], **kind[1])
            if bad:
                run = again
                break
        else:
            r.notes["not reproduced"] = r.notes.get("not reproduced", 0) + 1
            return None
    pos, may = validate.diagnose(run, **kind[1])
    e = run["ev"][pos] if pos < len(run["ev"]) else {}
    return {"suite": r.name, "kind": "trace", "what": "not a behaviour of the specification", "step": pos + 1, "op": e.get("o"),
            "observed": e, "expected": may, "run": run}


# ---- every command of MCCommands
def command_text(c, root, u):
    """The bytes of a command of MCCommands; u: the paths there are (for what patterns match)."""
    bad = {"fr": "(", "to": "[a"}
    a = []
    c = dict(c)
    if c["k"] == "crash":
        for key, n in (("op", "op"), ("tm", "timing")):
            if c[key] != "no":
                a.append(f"{n}={c[key]}")
        for key, n, l in (("fr", "from_rgx", "f"), ("to", "to_rgx", "t")):
            if c[key] != "no":
                a.append(f"{n}=" + (".*" if c[key] == "ok" else bad[key]))
                c[l] = u
    else:
        if c["p"]:
            a.append("file=" + os.path.join(root, *c["p"]))
        if c["k"] == "tornseq" and c["op"] != "no":
            a.append("op=" + c["op"])
        if c["k"] == "tornop" and c["parts"] != -1:
            a.append(f"parts={c['parts']}")
        for key, n in (("bytes", "parts_bytes"), ("persist", "persist")):
            if c.get(key):
                a.append(n + "=" + ",".join(map(str, c[key])))
        a.append(f"occurrence={c['occ']}")
    if c["extra"]:
        a.append("more=1")
    c["raw"] = ("lazyfs::" + {"crash": "crash", "tornop": "torn-op", "tornseq": "torn-seq"}[c["k"]] + "".join("::" + x for x in a)).encode()
    return c


def commands_suite(exe, seed, keep=1.0):
    """All commands of MCCommands.tla: those that are accepted in a run of their own, the others many at a time, and then one
    operation of every kind."""
    t0 = time.time()
    r = Result("commands")
    cmds = []
    x = tlc.run("MCCommands", tlc.cfg_text(invariants=["Wellformed", "Harmless", "Emit"]),
                lines=lambda s: cmds.append(json.loads(s[2:])) if s.startswith("C ") else None)
    if x.rc:
        raise tlc.TLCError(x.out[-4000:])
    r.states, r.transitions = x.distinct, len(cmds)
    rnd = random.Random(seed)
    good = [c["c"] for c in cmds if c["ok"] and rnd.random() < keep]
    bad = [c["c"] for c in cmds if not c["ok"]]
    rnd.shuffle(bad)
    r.notes["accepted commands"], r.notes["rejected commands"] = len(good), len(bad)
    jobs = [[c] for c in good] + [bad[i:i + 40] for i in range(0, len(bad), 40)]
    fl = dict(gen.NOFL)
    u = [["a"], ["b"], ["c"], ["d"], ["l"], ["@", "a"]]

    def script(cs, root):
        w = lambda h, off, n: {"op": "write", "h": h, "off": off, "d": [7] * n}
        return [{"op": "open", "h": 1, "p": ["a"], "fl": fl}, w(1, 0, 1),
                {"op": "cmds", "cs": [command_text(c, root, u) for c in cs], "cuts": [], "h": 0},
                {"op": "stat", "p": ["a"]}, {"op": "read", "h": 1, "off": 0, "n": 3}, w(1, 1, 4), w(1, 2, 3), {"op": "fsync", "h": 1}, w(1, 0, 2), w(1, 2, 2), w(1, 4, 1),
                {"op": "access", "p": ["a"]}, {"op": "truncate", "p": ["a"], "n": 2}, {"op": "open", "h": 2, "p": ["b"], "fl": fl}, {"op": "close", "h": 2},
                {"op": "open", "h": 3, "p": ["c"], "fl": dict(fl, creat=True)}, {"op": "link", "p": ["a"], "q": ["l"]}, {"op": "unlink", "p": ["l"]},
                {"op": "symlink", "t": ["@", "a"], "q": ["l"]}, {"op": "rename", "p": ["b"], "q": ["d"]}]

    def one(i, work):
        return gen.Script(exe, work, 1, gen.PROFILES["script"], script(jobs[i], os.path.join(work, "root"))).go()

    runs = [y for _, y in pool_map(one, range(len(jobs)))]
    bad, res = validate.check(runs)
    r.states += res.distinct
    for i in bad[:STOP_AFTER]:
        pos, may = validate.diagnose(runs[i])
        e = runs[i]["ev"][pos] if pos < len(runs[i]["ev"]) else {}
        r.bad.append({"suite": r.name, "kind": "trace", "what": "not a behaviour of the specification", "step": pos + 1, "op": e.get("o"),
                      "observed": e, "expected": may, "run": runs[i]})
    r.traces, r.steps = len(runs), sum(len(y["ev"]) for y in runs)
    r.seconds = time.time() - t0
    return r


# ---- many requests in flight
def conc_suite(exe, seed, profile, count, over=None, batch=400):
    t0 = time.time()
    prof = dict(conc.PROFILES[profile], **(over or {}))
    r = Result(f"concurrent {profile}" + (f" {sorted(over)}" if over else ""))

    def one(i, work):
        return conc.Run(exe, work, seed_of(seed, "conc" + profile, i), prof).go()

    runs = [x for _, x in pool_map(one, range(count), enough=lambda x: any(e.get("r", {}).get("e") == "HANG" for e in x["ev"]))]
    for k in range(0, len(runs), batch):
        part = runs[k:k + batch]
        bad, res = validate.check(part, module="TraceConc", spec="CSpec")
        r.states += res.distinct
        r.transitions += res.generated
        for i in bad[:STOP_AFTER]:
            pos, may = validate.diagnose(part[i], module="TraceConc", spec="CSpec")
            e = part[i]["ev"][pos] if pos < len(part[i]["ev"]) else {}
            r.bad.append({"suite": r.name, "kind": "concurrent", "what": "no order of the operations in flight explains this", "step": pos + 1,
                          "op": e.get("o") or {"op": e.get("t")}, "observed": e, "expected": may, "run": part[i]})
        if len(r.bad) >= STOP_AFTER:
            break
    r.traces, r.steps = len(runs), sum(sum(e["t"] in ("call", "op") for e in x["ev"]) for x in runs)
    if runs:
        r.samples.append({"suite": r.name, "cfg": runs[0]["cfg"], "events": runs[0]["ev"][:12]})
    r.seconds = time.time() - t0
    return r
