"""Specification to implementation: every transition of a bounded state graph, as TLC prints it, is taken on the real
LazyFS, and what can be observed is compared with the specification's next state."""
import collections
import json
import os
import random

import tlc
from driver import Driver, Geometry


class Graph:
    def __init__(self):
        self.ids = {}
        self.states = []
        self.edges = []     # [(src, op, reply, dst)]
        self.init = []

    def sid(self, v):
        k = json.dumps(v, sort_keys=True)
        i = self.ids.get(k)
        if i is None:
            i = self.ids[k] = len(self.states)
            self.states.append(v)
        return i


def explore(constants, timeout=600, workers=8, emit=True, bound=True):
    """The state graph of MCLazyFS with these constants (checked on the way), or a TLC result with an error."""
    g = Graph()

    def line(s):
        v = json.loads(s[2:])
        if s[0] == "I":
            g.init.append(g.sid(v))
        else:
            g.edges.append((g.sid(v["s"]), v["o"], v["r"], g.sid(v["t"])))

    cfg = tlc.cfg_text(constants=constants, invariants=["Inv"], properties=["Props"], view="MCView",
                       constraints=["Bound"] if bound else [], actions=["Emit"] if emit else [])
    r = tlc.run("MCLazyFS", cfg, workers=workers, timeout=timeout, lines=line)
    if r.rc:
        raise tlc.TLCError(r.out[-4000:])
    # the order in which workers print is not fixed
    order = sorted(range(len(g.states)), key=lambda i: json.dumps(g.states[i], sort_keys=True))
    new = {old: k for k, old in enumerate(order)}
    g.states = [g.states[i] for i in order]
    uniq = {}
    for s, o, rep, t in g.edges:
        uniq.setdefault((new[s], json.dumps(o, sort_keys=True), json.dumps(rep, sort_keys=True), new[t]),
                        (new[s], o, rep, new[t]))
    g.edges = [uniq[k] for k in sorted(uniq)]
    g.init = sorted(new[i] for i in g.init)
    g.result = r
    return g


def walks(g, seed, length=60, limit=None):
    """Walks from initial states that take every edge at least once (or `limit` steps in all)."""
    rnd = random.Random(seed)
    out = collections.defaultdict(list)
    for i, e in enumerate(g.edges):
        out[e[0]].append(i)
    parent = {i: None for i in g.init}
    q = collections.deque(g.init)
    while q:
        s = q.popleft()
        for i in out[s]:
            t = g.edges[i][3]
            if t not in parent:
                parent[t] = i
                q.append(t)
    todo = {s: rnd.sample(l, len(l)) for s, l in out.items()}
    pending = [s for s in parent if todo.get(s)]
    rnd.shuffle(pending)
    total = 0
    res = []

    def nearest(s0, bound=300):
        seen = {s0: None}
        q = collections.deque([s0])
        while q and len(seen) < bound:
            s = q.popleft()
            for j in out.get(s, ()):
                t = g.edges[j][3]
                if t in seen:
                    continue
                seen[t] = j
                if todo.get(t):
                    hop = []
                    while seen[t] is not None:
                        hop.append(seen[t])
                        t = g.edges[seen[t]][0]
                    return hop[::-1]
                q.append(t)
        return None

    while pending:
        if limit and total >= limit:
            break
        s = pending[-1]
        if not todo[s]:
            pending.pop()
            continue
        path = []
        x = s
        while parent[x] is not None:
            path.append(parent[x])
            x = g.edges[parent[x]][0]
        path.reverse()
        n0 = len(path)
        cur = s
        while len(path) < n0 + length:
            if todo.get(cur):
                i = todo[cur].pop()
            else:
                hop = nearest(cur)
                if hop is None:
                    break
                path.extend(hop)
                cur = g.edges[hop[-1]][3]
                continue
            path.append(i)
            cur = g.edges[i][3]
        res.append(path)
        total += len(path)
    return res, sum(len(l) for l in todo.values())


# ---- what the specification's state looks like from outside

def expected(v):
    nodes = {x["n"]: x["x"] for x in v["nodes"]}
    links = collections.Counter(x["n"] for x in v["names"])
    back, mnt = [], []
    for x in v["names"]:
        if x["p"][-1].startswith("~h"):
            continue
        n = nodes[x["n"]]
        e = {"p": x["p"], "k": n["k"], "nl": -1 if n["k"] == "d" else links[x["n"]], "t": n["tgt"]}
        back.append(dict(e, c=n["dur"]))
        mnt.append(dict(e, c=n["vol"]))
    fds = [{"h": f["h"], "c": nodes[f["f"]["n"]]["vol"]} for f in v["fds"]]
    key = lambda e: e["p"]
    return sorted(back, key=key), sorted(mnt, key=key), sorted(fds, key=lambda f: f["h"])


def diff(kind, want, got):
    return None if want == got else {"what": kind, "expected": want, "observed": got}


def compare(d, v, deep):
    back, mnt, fds = expected(v)
    got = sorted(d.back(), key=lambda e: e["p"])
    x = diff("backing directory", back, got)
    if x:
        return x
    if d.alive() != v["alive"]:
        return diff("alive", v["alive"], d.alive())
    if v["alive"] and deep and not any(f["op"] in ("open", "read") for f in v["crash"] + v["clear"]):
        return diff("mounted view", mnt, sorted(d.mount(), key=lambda e: e["p"])) or diff("open files", fds, d.fdview())
    return None


def setup(d, v, cfg):
    """Brings a new LazyFS into an initial state (nothing cached)."""
    nodes = {x["n"]: x["x"] for x in v["nodes"]}
    made = {}
    os.makedirs(d.root + d.prefix, exist_ok=True)
    for x in sorted(v["names"], key=lambda x: (len(x["p"]), x["p"])):
        n = nodes[x["n"]]
        b = d.backing(x["p"])
        if x["n"] in made:
            os.link(made[x["n"]], b)
        elif n["k"] == "d":
            os.mkdir(b)
        elif n["k"] == "f":
            with open(b, "wb") as f:
                f.truncate(d.geo.base)
                f.seek(d.geo.base)
                f.write(d.geo.encode(0, n["dur"]))
        made[x["n"]] = b
    d.start(v["clear"], v["top"], v["tsq"], cfg)
    for f in v["fds"]:
        d.run({"op": "open", "h": f["h"], "p": f["f"]["p"],
               "fl": {"creat": False, "excl": False, "trunc": False, "append": f["f"]["app"]}})


def replay(exe, work, g, walk, geo, cfg, names=None, deep=1.0, seed=0, env=None, simple=None, usage=False, real=None):
    """Takes LazyFS along one walk.  Gives None or a description of the first difference."""
    rnd = random.Random(seed)
    d = Driver(exe, work, geo, cfg, names=names, simple=simple, real=real)
    trace = []
    try:
        v = g.states[g.edges[walk[0]][0]]
        setup(d, v, cfg)
        for k, i in enumerate(walk):
            s, o, r, t = g.edges[i]
            trace.append(o)
            got = d.run(o)
            x = None
            if got["e"] != r["e"] or (r["e"] == "ok" and got["v"] != r["v"]):
                x = {"what": "reply", "expected": r, "observed": got}
            else:
                x = compare(d, g.states[t], k == len(walk) - 1 or rnd.random() < deep)
            if not x and usage and d.alive() and rnd.random() < 0.1:
                u = d.usage()
                c = sum(len(n["x"]["cb"]) for n in g.states[t]["nodes"])
                x = diff("pages in use", c, u)
            if x:
                x.update(step=k + 1, op=o, ops=trace, init=v)
                return x
        return None
    except Exception as e:  # LazyFS gone or silent where it must not be
        return {"what": "exception", "expected": "-", "observed": repr(e), "step": len(trace), "ops": trace, "init": v}
    finally:
        d.done()
