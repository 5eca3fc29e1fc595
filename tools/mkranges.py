"""Writes harness/ranges.json: for every optimizer and hyper-parameter the rule which its constructor declares (with the other
parameters at their defaults) and the probe values. Run once; the table is the reference that the check compares with."""
import inspect
import json
import math
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import rec  # noqa
from mealpy.utils.validator import Validator

LOG = {}


def wrap(name, kind):
    f = getattr(Validator, name)

    def g(self, nm, value, *a, **k):
        b = list(a) + list(k.values())
        LOG[nm] = (kind, [(type(x).__name__, list(x)) if x is not None else None for x in b])
        return f(self, nm, value, *a, **k)
    setattr(Validator, name, g)


for n, k in (("check_int", "int"), ("check_float", "float"), ("check_str", "str"), ("check_bool", "bool"), ("check_is_int_and_float", "intfloat")):
    wrap(n, k)


def enc(x):
    return "inf" if x == math.inf else "-inf" if x == -math.inf else x


def rule(kind, b):
    if kind in ("int", "float"):
        if not b or b[0] is None:
            return {"kind": kind, "closed": True, "lo": "-inf", "hi": "inf"}
        return {"kind": kind, "closed": b[0][0] == "list", "lo": enc(b[0][1][0]), "hi": enc(b[0][1][1])}
    if kind == "str":
        return {"kind": kind, "choices": sorted(b[0][1])}
    if kind == "bool":
        return {"kind": kind}
    return {"kind": kind, "int": rule("int", b[:1]), "float": rule("float", b[1:2])}


def probes(r):
    k = r["kind"]
    if k in ("int", "float"):
        lo, hi = float(r["lo"]), float(r["hi"])
        step = 1 if k == "int" else max(1e-6, (min(hi, 1e3) - max(lo, -1e3)) * 1e-3)
        vs = []
        for b in (lo, hi):
            if math.isfinite(b):
                vs += [b - step, b, b + step]
        if k == "int":
            vs = [int(v) for v in vs if abs(v) < 1e9]
        if math.isfinite(lo) and math.isfinite(hi):
            m = (lo + hi) / 2
            vs.append(int(m) if k == "int" else m)
        return vs
    if k == "str":
        return r["choices"] + ["no-such-choice", r["choices"][0].upper() + "?"]
    if k == "bool":
        return [True, False]
    return probes(r["int"]) + [float(v) + (0. if isinstance(v, float) else .0) for v in probes(r["float"])]


def acc(r, v):
    k = r["kind"]
    if k in ("int", "float"):
        lo, hi = float(r["lo"]), float(r["hi"])
        return lo <= v <= hi if r["closed"] else lo < v < hi
    if k == "str":
        return v in r["choices"]
    if k == "bool":
        return True
    return acc(r["int"], v) if isinstance(v, int) else acc(r["float"], v)


out, left = {}, 0
for name, cls in sorted(rec.classes().items()):
    out[name] = []
    for base in ({}, {"epoch": 60, "pop_size": 40}):
        LOG.clear()
        try:
            m = cls(**base)
        except (ValueError, TypeError):
            continue
        if "pp" in m.get_parameters() and "pp" not in LOG and "p1" in LOG:
            LOG["pp"] = LOG["p1"]       # MGTO validates pp under the name p1
        missing = [p for p in m.get_parameters() if p not in LOG]
        if missing:
            print("not validated:", name, missing)
        t = {}
        for p, r in [(p, rule(*LOG[p])) for p in m.get_parameters() if p in LOG]:
            if base and (p in base or out[name] and out[name][0]["params"].get(p, {}).get("rule") == r):
                continue        # nothing new
            keep = []
            for v in probes(r):
                try:
                    cls(**{**base, p: v})
                    got = True
                except ValueError:
                    got = False
                if acc(r, v) and not got:
                    left += 1       # refused because of another parameter whose rule depends on this one
                    continue
                if got and not acc(r, v):
                    print("ACCEPTED OUTSIDE", name, p, v, r)
                keep.append(v)
            t[p] = {"rule": r, "probes": keep}
        if t:
            out[name].append({"base": base, "params": t})
print(sum(len(b["params"]) for t in out.values() for b in t), "parameters,", sum(len(d["probes"]) for t in out.values() for b in t for d in b["params"].values()), "probes,", left, "left out")
json.dump(out, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "ranges.json"), "w"), separators=(",", ":"))
