"""S01-S05, S07, S13 (and the corpus part of S06): recordings of every optimizer judged by spec/SolveTrace.tla."""
import json
import os
import random
import shutil
import tempfile

import numpy as np

import corpus
import rec
import tlc
import trace
from common import SEED, Report
from pool import run_jobs

# Which families of configurations feed which property
FAM = {
    "S01": {"quick": ["float", "big", "mixed", "discrete", "range", "params", "any", "options", "small", "few"], "thorough": None},
    "S02": {"quick": ["float", "mixed", "ties", "params", "swarm", "discrete", "thread", "any", "options", "small", "few"], "thorough": None},
    "S03": {"quick": ["float", "ties", "scale", "tiny", "params", "long", "swarm", "any", "options", "small", "few"], "thorough": None},
    "S04": {"quick": ["float", "mixed", "range", "params", "ties", "tiny", "swarm", "scale", "any", "options", "small", "few"], "thorough": None},
    "S05": {"quick": ["float", "ties", "mixed", "swarm", "tiny", "long", "any", "options", "small", "few"], "thorough": None},
    "S07": {"quick": ["float", "mixed", "params", "swarm", "thread", "big", "any", "options", "small", "few"], "thorough": None},
    "S06": {"quick": ["term", "float"], "thorough": None},
    "S17": {"quick": ["start"], "thorough": ["start"]},
    "S18": {"quick": ["fail"], "thorough": ["fail"]},
    "S21": {"quick": ["float", "big", "mixed", "discrete", "range", "params", "long", "wide", "scale", "thread", "ties", "multi", "multi2", "tiny", "swarm", "any", "options", "small", "few"], "thorough": None},
    "S13": {"quick": ["multi", "multi2", "scale", "tiny"], "thorough": None},
}
CLASSES = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "classes.json")))
NOTERM = {"mg": 0, "fe": 0, "tb": 0, "es": 0, "ep": 0}


def meta_of(cfg, tid):
    t = dict(NOTERM)
    for k, v in (cfg.get("term") or {}).items():
        t[{"max_epoch": "mg", "max_fe": "fe", "max_time": "tb", "max_early_stop": "es", "epsilon": "ep"}[k]] = int(v)     # (objectives are integers then)
    return {"id": tid, "mm": cfg["minmax"], "E": cfg["params"].get("epoch", 0), "term": t,
            "strict": cfg["cls"] not in CLASSES["not_elitist"], "strict17": cfg["cls"] not in CLASSES["own_initialization"],
            "savepop": bool(cfg.get("save_population")), "failat": cfg.get("fail_at", -1), "exc": "", "start": [], "same": [],
            "mode": cfg.get("mode", "single")}


def rand_start(c, n):
    """n valid encoded positions, from the declared domain alone"""
    r = random.Random(f"start:{c['seed']}:{c['cls']}")
    dom, perms = rec.dom_of(c["bounds"])
    out = []
    for _ in range(n):
        x = []
        for lo, hi, integer in dom:
            v = r.randint(int(lo), int(hi)) if integer else r.uniform(lo, hi)
            x.append(float(v))
        for s, e in perms:
            p = list(range(e - s)); r.shuffle(p)
            x[s:e] = [float(v) for v in p]
        out.append(x)
    return out


def canon(x):
    if isinstance(x, np.ndarray):
        return ("nd", str(x.dtype), x.shape, x.tobytes())
    if isinstance(x, dict):
        return ("dict", tuple((k, canon(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(canon(v) for v in x))
    return (type(x).__name__, repr(x))


def run_started(c):
    """a run with starting solutions; the caller's objects are compared before and after"""
    try:
        o = rec.mkopt(c)
    except Exception as e:      # noqa
        return {"cfg": c, "status": "error", "err": f"{type(e).__name__}: {e}"[:300], "events": []}, {"start_raw": []}
    sols = rand_start(c, o.pop_size)
    form = c["start_form"]
    start = {"list": sols, "array": np.array(sols), "tuple": tuple(tuple(s) for s in sols), "arrays": [np.array(s) for s in sols]}[form]
    term = {"max_fe": 10 ** 6, "max_epoch": c["params"].get("epoch", 5)} if form != "array" else None
    c2 = dict(c, start=start, term=term)
    before = [canon(start), canon(term or {}), canon(c["params"])]
    raw = rec.run(c2, opt=o, timeout=40)
    after = [canon(start), canon(term or {}), canon(c["params"])]
    names = ["starting_solutions", "termination", "parameters"]
    return raw, {"start_raw": [rec.key(s) for s in sols],
                 "same": [{"n": n, "a": 1, "b": 1 if x == y else 2} for n, x, y in zip(names, before, after)]}


def job(a):
    """records the configurations of one class, writes one ndjson line per run"""
    cls, cfgs, path = a
    out = []
    with open(path, "w") as f:
        for n, c in enumerate(cfgs):
            tid = f"{cls}#{n}"
            meta = meta_of(c, tid)
            if "start_form" in c:
                raw, extra = run_started(c)
                meta.update(extra)
            else:
                raw = rec.run(c, timeout=40)
            meta["exc"] = "ObjError" if raw.get("same_exc") else "other"
            if meta["failat"] >= 0 and raw["status"] == "ok" and sum(len(e["evals"]) for e in raw["events"]) <= meta["failat"]:
                meta["failat"] = -1        # the run was over before that call
            tr = trace.build([raw], c.get("weights"), c["bounds"], meta)
            ln = json.dumps(tr, separators=(",", ":"))
            f.write(ln + "\n")
            out.append({"id": tid, "status": raw["status"], "err": raw["err"], "neval": tr["neval"], "size": len(ln),
                        "epochs": len(tr["runs"][0]["ev"]) - 1})
            if raw["status"] == "timeout":
                break
    return out


def shards(files, d, n=8):
    """spreads the per-class files over n files of about the same size"""
    bins = [[0, []] for _ in range(n)]
    for p in sorted(files, key=lambda p: -os.path.getsize(p)):
        b = min(bins, key=lambda b: b[0])
        b[0] += os.path.getsize(p); b[1].append(p)
    res = []
    for i, (sz, ps) in enumerate(bins):
        if not sz:
            continue
        q = os.path.join(d, f"shard{i}.ndjson")
        with open(q, "wb") as f:
            for p in ps:
                with open(p, "rb") as g:
                    shutil.copyfileobj(g, f)
                os.unlink(p)
        res.append(q)
    return res


def judge(shard_files, props, module="SolveTrace", timeout=800, consts=""):
    cfg = "SPECIFICATION Spec\nCONSTANT Props = {%s}\n%s" % (", ".join('"%s"' % p for p in props), consts)
    return tlc.judge_many(module, cfg, shard_files, timeout)


def corrupt(tr, prop):
    """Canaries: copies of one conforming trace with one recorded field changed; each must be rejected by `prop`."""
    def cp():
        return json.loads(json.dumps(tr))
    out = []
    r = lambda c: c["runs"][0]
    last = lambda c: c["runs"][0]["ev"][-1]
    def put(name, f):
        c = cp(); f(c); c["id"] = "canary#" + name; out.append(c)
    if prop == "S01":
        put("below", lambda c: c["sols"].__setitem__(r(c)["ev"][1]["evals"][0] - 1, [1, 0, 0, c["nd"], 0]))
        put("nan", lambda c: c["sols"].__setitem__(r(c)["fin"]["ret"][0] - 1, [0, 0, 1, c["nd"], 0]))
        put("dim", lambda c: c["sols"].__setitem__(last(c)["pop"][0][0] - 1, [0, 0, 0, c["nd"] + 1, 0]))
    elif prop == "S02":
        put("pop_obj", lambda c: last(c)["pop"].__setitem__(0, [last(c)["pop"][0][0], last(c)["pop"][0][1] % len(c["objr"]) + 1, last(c)["pop"][0][2]]))
        put("unevaluated", lambda c: (c["sols"].append([0, 0, 0, c["nd"], 0]), c["so"].append(0), r(c)["fin"]["gb"].__setitem__(0, [len(c["sols"]), r(c)["fin"]["gb"][0][1], r(c)["fin"]["gb"][0][2]])))
    elif prop == "S03":
        put("returned", lambda c: r(c)["fin"].__setitem__("ret", last(c)["pop"][-1] if last(c)["pop"][-1] != r(c)["fin"]["ret"] else last(c)["pop"][0]))
        put("worse", lambda c: last(c)["gb"].__setitem__(2, last(c)["gb"][2] + (1000000 if c["mm"] == "min" else -1000000)))
    elif prop == "S04":
        put("missed", lambda c: c["objr"].__setitem__(c["so"][r(c)["ev"][0]["evals"][0] - 1] - 1, -5 if c["mm"] == "min" else 10 ** 6))
    elif prop == "S05":
        put("short", lambda c: r(c)["fin"]["gb"].pop())
        put("overwritten", lambda c: r(c)["fin"]["cb"].__setitem__(0, [0, 0, 0]))
    elif prop == "S07":
        put("count", lambda c: last(c).__setitem__("nfe", last(c)["nfe"] + 1))
        put("lost", lambda c: r(c)["ev"][1]["evals"].pop())
    elif prop == "S13":
        put("weights", lambda c: c["fit4"].__setitem__(0, c["fit4"][0] + 1) if c["fit4"] else last(c)["pop"][0].__setitem__(2, 10 ** 6))
    elif prop == "S17":
        put("ignored", lambda c: c["start"].__setitem__(0, c["neval"] + 7))
        put("changed", lambda c: c["same"].__setitem__(0, {"n": "x", "a": 1, "b": 2}))
    elif prop == "S18":
        put("swallowed", lambda c: r(c).__setitem__("status", "ok"))
        put("late", lambda c: c.__setitem__("failat", c["failat"] - 1))
    elif prop == "S21":
        put("error", lambda c: r(c).__setitem__("status", "error"))
    elif prop == "S06":
        put("late", lambda c: c.__setitem__("E", c["E"] - 1))
        put("early", lambda c: c.__setitem__("E", c["E"] + 1))
    return out


def describe(cfg):
    return {k: v for k, v in cfg.items() if k != "bounds"}


def check(prop, tier, only=None):
    rep = Report(prop, tier)
    part(rep, prop, tier, only)
    return rep.finish()


def part(rep, prop, tier, only=None):
    d = tempfile.mkdtemp(prefix="vsolve_")
    try:
        fams = FAM[prop][tier]
        jobs, cfgs = [], {}
        for cls in sorted(rec.classes()):
            if only and cls not in only:
                continue
            fs = corpus.families(cls, SEED, tier)
            skip = ("start", "fail") + (("term",) if prop == "S21" else ())
            known = [f for f, _ in corpus.ACCEPTED.get(cls, [])]
            cc = [c for f, l in fs.items() if (prop == "S21" if f in known else f in fams if fams else f not in skip) for c in l]
            if prop in ("S01", "S02", "S04", "S05", "S07", "S13"):
                again = corpus.families(cls, SEED + 7919, "quick")
                cc += [c for f in ("any", "small", "few", "params", "swarm", "tiny", "discrete", "scale", "multi", "multi2") if not fams or f in fams for c in again.get(f, [])]
            if prop == "S21":       # rare branches: twice as many runs of the families that are drawn at random
                again = corpus.families(cls, SEED + 7919, "quick")
                cc += [c for f in ("any", "small", "few", "params", "options", "ties", "scale", "range", "discrete", "mixed", "thread", "swarm", "tiny", "multi2") for c in again.get(f, [])]
                for k in range(1, 5):
                    more = corpus.families(cls, SEED + 104729 * k, "quick")
                    cc += [c for f in ("small", "any", "few", "params", "scale", "swarm", "ties") for c in more.get(f, [])]
            for n, c in enumerate(cc):
                cfgs[f"{cls}#{n}"] = c
            jobs.append((cls, cc, os.path.join(d, cls + ".nd")))
        res = run_jobs(job, jobs, chunksize=2)
        info = {r["id"]: r for l in res for r in l}
        sh = shards([j[2] for j in jobs], d)
        # canaries
        base = None
        with open(sh[0]) as f:
            for ln in f:
                tr = json.loads(ln)
                if prop == "S18" and tr["failat"] >= 0:
                    base = tr; break
                if tr["runs"][0]["status"] == "ok" and tr["strict"] and tr["strict17"] and len(tr["objr"]) > 20 and len(tr["runs"][0]["ev"]) > 2 and len(tr["runs"][0]["ev"][-1]["pop"]) > 2 and (prop != "S13" or tr["fit4"]):
                    base = tr
                    break
        can = []
        if base is not None:
            can = corrupt(base, prop)
            with open(sh[0], "a") as f:
                for c in can:
                    f.write(json.dumps(c, separators=(",", ":")) + "\n")
        outs, st = judge(sh, [prop])
        fails = [x for o in outs for x in o["fails"]]
        caught = {x["id"] for x in fails if x["id"].startswith("canary#")}
        missing = [c["id"] for c in can if c["id"] not in caught]
        if (missing or not can) and len(caught) == len({x["id"] for x in fails}):
            raise SystemExit(f"machinery failure: corrupted traces accepted: {missing}")
        for x in fails:
            if x["id"].startswith("canary#"):
                continue
            c = cfgs[x["id"]]
            rep.violation((c["cls"], x["clause"], c["fam"]),
                          f"{c['cls']} breaks clause {x['clause']} at epoch boundary {x['at']} ({json.dumps(describe(c), default=str)[:300]})",
                          {"cfg": c, "clause": x["clause"], "at": x["at"]})
        errs = [r for r in info.values() if r["status"] != "ok"]
        rep.add({"states": sum(s["distinct"] for s in st), "transitions": sum(s["generated"] for s in st),
                   "traces_validated_against_impl": len(info), "optimizers": len(jobs),
                   "epoch_boundaries": sum(o.get("events", 0) for o in outs), "objective_calls": sum(o.get("evals", 0) for o in outs),
                   "runs_ended_by_error": len(errs), "corrupted_traces_rejected": len(caught)})
        rep.samples += [describe(cfgs[i]) for i in list(info)[:: max(1, len(info) // 8)]][:8]
        if errs:
            rep.cov["error_runs"] = [f"{r['id']}: {r['err']}" for r in errs][:40]
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    import sys
    sys.exit(check(sys.argv[1], sys.argv[2], sys.argv[3:] or None))
