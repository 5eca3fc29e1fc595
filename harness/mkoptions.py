"""Offline tool (its output harness/options.json is committed): argument sets that together use every documented value
of every discrete hyper-parameter (names, flags, small integer ranges) and both ends of every continuous one.

Argument sets the optimizers cannot run with are dropped (same rule as filtervariants.py) and listed on stderr."""
import json
import random
import sys
import mkvariants as M
import rec
from pool import run_jobs
from shapes import SHAPES

MINEP = {"OriginalGSKA": 12, "HI_WOA": 12}


def options(cls):
    """(parameter, values) of the discrete parameters"""
    M.CALLS.clear()
    base = M.kwargs_of(cls)
    kw = {k: 10 for k in ("pop_size",) if k in base}
    if "epoch" in base:
        kw["epoch"] = 12
    v = M.make(cls, 10, "options", n=0)
    if v is None:
        return None, {}, {}
    kw = v[0]
    o, calls = M.probe(cls, kw)
    disc, cont = {}, {}
    scan(base, calls, disc, cont)
    for k, vs in list(disc.items()):       # ranges that depend on another option
        for x in vs:
            scan(base, M.probe(cls, dict(kw, **{k: x}))[1], disc, cont)
    return kw, disc, cont


def scan(base, calls, disc, cont):
    for k, name, value, b, b2 in calls:
        if name not in base or name in ("epoch", "pop_size"):
            continue
        if k == "check_str" and b is not None:
            disc[name] = sorted(set(disc.get(name, [])) | set(b))
        elif k == "check_bool":
            disc[name] = [True, False]
        elif k == "check_int" and b is not None and b[1] - b[0] <= 10:
            lo, hi = (int(b[0]), int(b[1])) if isinstance(b, list) else (int(b[0]) + 1, int(b[1]) - 1)
            disc[name] = list(range(lo, hi + 1))
        elif k == "check_float" and b is not None:
            cont[name] = b


def works(name, p, quick=False):
    for sh in ("f5", "f3", "mix"):
        for s in (1, 2):
            q = dict(p)
            if "epoch" in q:
                q["epoch"] = 12
            r = rec.run(dict(cls=name, params=q, bounds=SHAPES[sh], obj=("linear", "rastrigin")[s - 1], minmax=("min", "max")[s - 1], seed=s, mode="single"), timeout=8)
            if r["status"] != "ok":
                return r["err"] or r["status"]
    return None


def job(name):
    M.patch() if not getattr(M, "_patched", 0) else None
    M._patched = 1
    cls = rec.classes()[name]
    kw, disc, cont = options(cls)
    if kw is None or not disc:
        return name, []
    r = random.Random(name)
    todo = {(k, json.dumps(v)) for k, vs in disc.items() for v in vs}
    out = []
    for _ in range(60):
        if not todo:
            break
        q = dict(kw)
        for k, vs in disc.items():
            left = [v for v in vs if (k, json.dumps(v)) in todo]
            q[k] = r.choice(left or vs)
        bad = M.probe(cls, q)[0]
        err = str(bad) if isinstance(bad, Exception) else works(name, q)
        if err:
            sys.stderr.write(f"{name} {err} { {k: q[k] for k in disc} }\n")
            continue
        new = {(k, json.dumps(q[k])) for k in disc} & todo
        if new:
            out.append(q)
            todo -= new
    if todo:
        sys.stderr.write(f"UNCOVERED {name} {sorted(todo)}\n")
    return name, out


if __name__ == "__main__":
    res = {k: v for k, v in run_jobs(job, sorted(rec.classes())) if v}
    json.dump(res, open("options.json", "w"), indent=0, sort_keys=True)
    print(len(res), sum(map(len, res.values())))
