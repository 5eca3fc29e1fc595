"""Raw records -> integer traces for the TLA+ specifications.

Solutions become ids numbered in the order in which they were first evaluated, objective vectors become ids, and
fitness values become dense ranks (order-isomorphic to the floats), so that the specification can compare, minimise,
maximise and look up without floating point.
"""
import math
import numpy as np

from rec import dom_of, sol_class, MULTI


class Interner:
    """Shared by the runs of one product trace."""

    def __init__(self, dom, perms, weights):
        self.dom, self.perms, self.weights = dom, perms, weights
        self.sid, self.sols, self.so = {}, [], []
        self.oid, self.objs = {}, []
        self.floats = set()

    def sol(self, k, x):
        s = self.sid.get(k)
        if s is None:
            s = self.sid[k] = len(self.sols) + 1
            self.sols.append(sol_class(x, self.dom, self.perms))
            self.so.append(0)
        return s

    def obj(self, o):
        if o is None:
            return 0
        i = self.oid.get(o)
        if i is None:
            i = self.oid[o] = len(self.objs) + 1
            self.objs.append(o)
            self.floats.add(self.fit(o))
        return i

    def fit(self, o):
        w = self.weights
        if w is None or len(w) != len(o):
            w = [1.0] * len(o)
        f = 0.0
        for a, b in zip(w, o):
            f += a * b
        return f if len(o) > 1 else (w[0] * o[0])


def _collect(raw, it):
    """first pass: intern evaluated solutions in evaluation order and gather all fitness values"""
    for ev in raw["events"]:
        for (k, o, x) in ev.get("evals", ()):
            s = it.sol(k, x)
            oi = it.obj(o)
            if it.so[s - 1] == 0:
                it.so[s - 1] = oi


def _agents(raw):
    for ev in raw["events"]:
        for nm in ("pop", "pop_after"):
            for a in (ev.get(nm) or ()):
                yield a
        for a in [ev.get("gb")]:
            if a is not None:
                yield a
    if "ret" in raw and raw["ret"] is not None:
        yield raw["ret"]
    if "hist" in raw:
        h = raw["hist"]
        for nm in ("gb", "cb", "gw", "cw"):
            for a in h[nm]:
                yield a
        for p in h["pops"]:
            for a in p:
                yield a


def ranks(it, raws, mirrored=False):
    for raw in raws:
        for a in _agents(raw):
            if a is not None and a[2] is not None:
                it.floats.add(a[2])
        if "hist" in raw:
            it.floats.update(raw["hist"]["gbf"]); it.floats.update(raw["hist"]["cbf"])
    if mirrored:      # of two runs with opposite objectives: the rank of -v mirrors the rank of v
        it.floats.update([-v for v in it.floats])
    vals = sorted(v for v in it.floats if not math.isnan(v))
    return {v: i + 1 for i, v in enumerate(vals)}


def _ag(a, it, rk):
    if a is None:
        return [0, 0, 0]
    s = it.sol(a[0], a[3])
    o = it.obj_get(a[1])
    return [s, o, rk.get(a[2], 0) if a[2] is not None else 0]


def build(raws, weights=None, desc=None, meta=None):
    """raws: list of raw records compared with each other (usually one). Returns one trace dict."""
    dom, perms = dom_of(desc)
    it = Interner(dom, perms, weights)
    for raw in raws:
        _collect(raw, it)
    it.obj_get = lambda o: 0 if o is None else it.oid.get(o, -1)
    n_eval = len(it.sols)
    rk = ranks(it, raws, (meta or {}).get("rel") == "dual")
    multi = weights is not None and any(len(o) > 1 for o in it.objs)
    out_runs = []
    for raw in raws:
        evs = []
        cache = {}

        def ag(a):
            if a is None:
                return [0, 0, 0]
            kk = (a[0], a[1], a[2])
            r = cache.get(kk)
            if r is None:
                r = cache[kk] = _ag(a, it, rk)
            return r
        for ev in raw["events"]:
            if ev["epoch"] == -2:
                evs.append({"ep": -2, "evals": [it.sid[k] for (k, o, x) in ev["evals"]], "pop": [], "after": [],
                            "gb": [0, 0, 0], "nfe": 0})
                continue
            evs.append({"ep": ev["epoch"], "evals": [it.sid[k] for (k, o, x) in ev["evals"]],
                        "pop": [ag(a) for a in (ev["pop"] or [])],
                        "after": [ag(a) for a in (ev["pop_after"] or [])],
                        "gb": ag(ev["gb"]), "nfe": ev["nfe"]})
        r = {"status": raw["status"], "ev": evs, "fin": {}}
        if raw["status"] == "ok":
            h = raw["hist"]
            r["fin"] = {"ret": ag(raw["ret"]), "gb": [ag(a) for a in h["gb"]], "cb": [ag(a) for a in h["cb"]],
                        "gw": [ag(a) for a in h["gw"]], "cw": [ag(a) for a in h["cw"]],
                        "gbf": [rk.get(v, 0) for v in h["gbf"]], "cbf": [rk.get(v, 0) for v in h["cbf"]],
                        "nt": h["nt"], "ndiv": h["ndiv"], "nexpl": h["nexpl"], "nexploit": h["nexploit"],
                        "epoch": -1 if h["epoch"] is None else int(h["epoch"]),
                        "pops": [[ag(a) for a in p] for p in h["pops"]], "msg": msg_code(raw.get("msg", ""))}
        out_runs.append(r)
    tr = dict(meta or {})
    if "start_raw" in tr:
        tr["start"] = [it.sid.get(k, len(it.sols) + 1) for k in tr.pop("start_raw")]
    tr["nd"] = len(dom)
    tr["sols"] = it.sols
    tr["so"] = it.so + [0] * (len(it.sols) - len(it.so))
    tr["neval"] = n_eval
    tr["objr"] = [rk.get(it.fit(o), 0) for o in it.objs]
    if multi:
        tr["w4"] = [int(round(w * 4)) for w in weights]
        tr["objv"] = [[int(v) for v in o] for o in it.objs]
        tr["fit4"] = [int(round(it.fit(o) * 4)) for o in it.objs]
    else:
        tr["w4"], tr["objv"], tr["fit4"] = [], [], []
    tr["rval"] = [int(v) for v in sorted(rk)] if (tr.get("term") or {}).get("ep") else []
    tr["nrank"] = len(rk)
    tr["runs"] = out_runs
    return tr


def msg_code(m):
    for c, t in (("MG", "(MG)"), ("FE", "(FE)"), ("TB", "(TB)"), ("ES", "(ES)")):
        if t in m:
            return c
    return "none" if m == "" else "other"
