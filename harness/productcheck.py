"""S08 S09 S10 S11 S19 S23 (pairs of runs judged by spec/Product.tla) and S17 S18 (facts about one run)."""
import inspect
import json
import logging
import os
import pickle
import random
import shutil
import sys
import tempfile

import numpy as np

import corpus
import rec
import solvecheck
import tlc
import trace
from common import SEED, VERIF, Report
from pool import run_jobs
from shapes import SHAPES

HERE = os.path.dirname(os.path.abspath(__file__))


def slim(raw):
    raw = dict(raw)
    raw.pop("opt", None)
    return raw


def pair(tid, rel, a, b, cfg, same=()):
    if "timeout" in (a["status"], b["status"]):
        return None           # a run that does not end is judged by S21
    tr = trace.build([a, b], cfg.get("weights"), cfg["bounds"],
                     {"id": tid, "mm": cfg["minmax"], "rel": rel, "same": [{"n": n, "a": x, "b": y} for n, x, y in same]})
    if rel == "dual":
        tr["sr"] = [tr["objr"][o - 1] if o > 0 else 0 for o in tr["so"]]
    for k in ("sols", "objr", "objv", "fit4", "so", "w4"):
        tr.pop(k, None)
    return tr


_ids = {}


def ident(x):
    """a small integer standing for a value, equal exactly when the values are equal"""
    k = canon(x)
    return _ids.setdefault(k, len(_ids) + 1)


def canon(x):
    if isinstance(x, np.ndarray):
        return ("nd", str(x.dtype), x.shape, x.tobytes())
    if isinstance(x, dict):
        return ("dict", tuple((k, canon(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(canon(v) for v in x))
    return (type(x).__name__, repr(x))


def num(v):
    """1 and 1.0 are the same parameter value"""
    return repr(float(v)) if isinstance(v, (int, float, np.number)) and not isinstance(v, bool) else repr(v)


def mk(cls, r, shape, obj, mm="min", pop=10, vi=0, epoch=5, **kw):
    vi = vi % max(1, corpus.nvar(cls, pop))
    return corpus.cfg(cls, kw.pop("fam", "pair"), shape, obj, mm, pop=pop, vi=vi, epoch=epoch, seed=r.choice([0, 1, 2, 3, 10, 42, 123, 2 ** 31 + 5, r.randrange(10 ** 6)]), **kw)


def mkopt(c):
    """None if the constructor raises: the run that follows then reports the error"""
    try:
        return rec.mkopt(c)
    except Exception:      # noqa
        return None


def base_cfgs(cls, prop, tier):
    r = random.Random(f"{SEED}:{prop}:{cls}")
    rot = corpus.rotate
    n = 1 if tier == "quick" else 6
    out = []
    for j in range(n):
        out.append(mk(cls, r, "f5", r.choice(corpus.SINGLE), r.choice(["min", "max"]), epoch=6, fam="float"))
        out.append(mk(cls, r, "mix", r.choice(corpus.SINGLE), r.choice(["min", "max"]), epoch=4, fam="mixed"))
        out.append(mk(cls, r, rot(cls, corpus.DISC, SEED, j), r.choice(["linear", "shift"]), r.choice(["min", "max"]), vi=1 + j, epoch=5, fam="discrete"))
        out.append(mk(cls, r, r.choice(["f3", "f17"]), r.choice(corpus.SINGLE + corpus.TIES), r.choice(["min", "max"]), pop=13, vi=2 + j, epoch=4, fam="params"))
        # the parallel branches, rare events late in a run, the remaining argument sets
        out.append(mk(cls, r, r.choice(["f5", "f5", "f17", "mix"]), r.choice(corpus.SINGLE), r.choice(["min", "max"]), vi=3 + j, epoch=6, fam="swarm", mode="swarm"))
        out.append(mk(cls, r, r.choice(["f2", "f5"]), r.choice(corpus.SINGLE + ["plateau"]), r.choice(["min", "max"]), vi=4 + j, epoch=r.choice([24, 30]), fam="long"))
        out.append(mk(cls, r, r.choice(sorted(SHAPES)), r.choice(corpus.SINGLE + corpus.TIES), r.choice(["min", "max"]), pop=r.choice([10, 13, 20]), vi=r.randrange(8), epoch=r.choice([5, 12]), fam="any", mode=r.choice(["single", "swarm"])))
    for i, p in enumerate(corpus.OPTIONS.get(cls, [])):
        out.append(corpus.with_params(mk(cls, r, r.choice(["f5", "mix", "f3"]), r.choice(corpus.SINGLE), r.choice(["min", "max"]), epoch=6, fam="options", mode=r.choice(["single", "swarm"])), p, 6))
    return r, out


# ------------------------------------------------------------------ S08: the same call gives the same run
def pollute(r):
    random.seed(r.randrange(10 ** 9)); np.random.seed(r.randrange(10 ** 9))
    for _ in range(r.randrange(20)):
        random.random(); np.random.random()


def s08_a(a):
    cls, tier, d = a
    r, cfgs = base_cfgs(cls, "S08", tier)
    out = []
    for n, c in enumerate(cfgs):
        if n == 3 or n % 5 == 4:
            c["mode"] = "thread" if n != 4 else "swarm"
        out.append(slim(rec.run(c, timeout=40)))
    with open(os.path.join(d, cls + ".pkl"), "wb") as f:
        pickle.dump((cfgs, out), f)
    return len(out)


def s08_b(a):
    cls, tier, d = a
    r = random.Random(f"b:{SEED}:{cls}")
    p = os.path.join(d, cls + ".pkl")
    with open(p, "rb") as f:
        cfgs, raws = pickle.load(f)
    os.unlink(p)
    lines, res = [], []
    others = ["OriginalPSO", "BaseGA", "OriginalDE", "OriginalSHADE"]
    for n, (c, a0) in enumerate(zip(cfgs, raws)):
        pollute(r)
        if n % 2:
            o = dict(c, cls=r.choice(others), seed=r.randrange(1000), mode="single")
            o["params"] = corpus.params(o["cls"], 10, 0, 3)
            rec.run(o, timeout=40)
        b = slim(rec.run(c, timeout=40))
        tid = f"{cls}#{n}"
        lines.append(pair(tid, "bag" if c["mode"] == "thread" else "same", a0, b, c))
        res.append({"id": tid, "cfg": c, "status": [a0["status"], b["status"]], "err": a0["err"] or b["err"]})
    return dump(d, cls, lines), res


def dump(d, cls, lines):
    p = os.path.join(d, cls + ".nd")
    with open(p, "w") as f:
        for tr in lines:
            if tr is not None:
                f.write(json.dumps(tr, separators=(",", ":")) + "\n")
    return p


def with_hashseed(hs, fn, jobs, **k):
    old = os.environ.get("PYTHONHASHSEED")
    os.environ["PYTHONHASHSEED"] = str(hs)
    try:
        return run_jobs(fn, jobs, **k)
    finally:
        if old is None:
            os.environ.pop("PYTHONHASHSEED")
        else:
            os.environ["PYTHONHASHSEED"] = old


# ------------------------------------------------------------------ S09: an optimizer can be used again
def hist_id(o):
    h = o.history
    ag = lambda l: [(a.solution.tolist(), float(a.target.fitness), np.ravel(a.target.objectives).tolist()) for a in l]
    return ident([ag(h.list_global_best), ag(h.list_current_best), ag(h.list_global_worst), ag(h.list_current_worst),
                  list(map(float, h.list_global_best_fit)), list(map(float, h.list_current_best_fit)), list(map(float, h.list_diversity)),
                  len(h.list_epoch_time), [ag(p) for p in h.list_population]])


class Kept:
    """what a caller may keep from an earlier solve"""

    def __init__(self, o, ret):
        self.h, self.ret = o.history, ret
        self.id0 = self.now()

    def now(self):
        class O:
            pass
        x = O(); x.history = self.h
        return (hist_id(x), ident([self.ret.solution.tolist(), float(self.ret.target.fitness)]) if self.ret is not None else 0)


def s09_job(a):
    cls, tier, d = a
    _ids.clear()
    r, cfgs = base_cfgs(cls, "S09", tier)
    lines, res = [], []
    for n, c in enumerate(cfgs):
        fresh = rec.run(c, timeout=40)
        kind = n % 3
        first = dict(c, bounds=SHAPES["f3"] if c["shape"] != "f3" else SHAPES["f5"], shape="x", obj=r.choice(corpus.SINGLE),
                     minmax="max" if c["minmax"] == "min" else "min", seed=r.randrange(1000))
        if kind == 1:
            first["fail_at"] = r.choice([0, 1, 5, 11, 15, 23, 37])
        if kind == 0:
            first["mode"] = r.choice(["swarm", "thread"])
            first["term"] = {"max_fe": 30}
        if kind == 2:
            first = dict(c)
        o = mkopt(c)
        prob = None
        if kind == 2:
            prob = rec.mkproblem(c)
        r1 = rec.run(first, opt=o, prob=prob, timeout=40)
        kept = None
        if r1["status"] == "ok":
            kept = Kept(o, o.g_best)
        second = slim(rec.run(c, opt=o, prob=prob, timeout=40))
        same = []
        if kept is not None:
            a0, b0 = kept.id0, kept.now()
            same = [("earlier_history", a0[0], b0[0]), ("earlier_result", a0[1], b0[1])]
        tid = f"{cls}#{n}"
        lines.append(pair(tid, "same", slim(fresh), second, c, same))
        res.append({"id": tid, "cfg": dict(c, first={k: v for k, v in first.items() if k != "bounds"}, kind=kind), "status": [fresh["status"], second["status"]], "err": fresh["err"] or second["err"]})
    return dump(d, cls, lines), res


# ------------------------------------------------------------------ S10: the execution modes agree
def s10_job(a):
    cls, tier, d = a
    r, cfgs = base_cfgs(cls, "S10", tier)
    lines, res = [], []
    o = mkopt(cfgs[0])
    par = o is None or o.is_parallelizable
    procs = {"quick": sum(map(ord, cls)) % 20 == SEED % 20, "thorough": sum(map(ord, cls)) % 3 == SEED % 3}[tier]
    for n, c in enumerate(cfgs):
        c = dict(c)
        c["params"] = dict(c["params"])
        modes = ["thread"]
        if procs and n == (SEED % 2):
            modes.append("process")
            if "epoch" in c["params"]:
                c["params"]["epoch"] = max(2, corpus.MINEPOCH.get(cls, 0))
            c["term"] = {"max_epoch": 2}
        base = slim(rec.run(dict(c, mode="swarm" if par else "single"), timeout=60))
        for m in modes:
            b = slim(rec.run(dict(c, mode=m, n_workers=r.choice([2, 3, corpus.WORKERS, None]) if m == "thread" else 2), timeout=120))
            tid = f"{cls}#{n}{m}"
            lines.append(pair(tid, "bag" if par else "same", base, b, c, [("mode_used", ident(m if par else "single"), ident(b.get("mode_used")))] if b["status"] == "ok" else []))
            res.append({"id": tid, "cfg": dict(c, second_mode=m), "status": [base["status"], b["status"]], "err": base["err"] or b["err"]})
    return dump(d, cls, lines), res


# ------------------------------------------------------------------ S11: minimising f = maximising -f
def s11_cfgs(cls, tier):
    r = random.Random(f"{SEED}:S11:{cls}")
    only = corpus.CLASSES["dual_only"].get(cls, {})
    cfgs = []
    # continuous spaces and objectives without symmetries: no two different candidates have the same fitness (ties are broken by position)
    for j in range(2 if tier == "quick" else 8):
        cfgs += [mk(cls, r, "f5", "sphere", vi=3 * j, epoch=7 if j != 1 else 24), mk(cls, r, r.choice(["f3", "f4n"]), "sphere", pop=13, vi=1 + 3 * j, epoch=6),
                 mk(cls, r, r.choice(["f17", "fbig"]), "sphere", vi=2 + 3 * j, epoch=5)]
    cfgs += [corpus.with_params(mk(cls, r, r.choice(["f5", "f3"]), "sphere", epoch=6, fam="options"), p, 6) for p in corpus.OPTIONS.get(cls, [])]
    for n, c in enumerate(cfgs):
        obj = ["asym", "asin", "asym_neg", "asin_pos", "asym_huge"][(n + len(cls) + SEED) % 5]
        if "objectives" in only:
            obj = only["objectives"][n % len(only["objectives"])]
        c.update(obj=obj, minmax="min")
        if "epochs" in only:
            c["params"] = dict(c["params"], epoch=only["epochs"])
        if n % 3 == 2 or n % 6 == 4:
            c["mode"] = "swarm"
    return cfgs


def s11_job(a):
    cls, tier, d = a
    lines, res = [], []
    for n, c in enumerate(s11_cfgs(cls, tier)):
        x = slim(rec.run(c, timeout=40))
        y = slim(rec.run(dict(c, obj="minus_" + c["obj"], minmax="max"), timeout=40))
        tid = f"{cls}#{n}"
        lines.append(pair(tid, "dual", x, y, c))      # fitness ranks are compared mirrored by the specification
        res.append({"id": tid, "cfg": c, "status": [x["status"], y["status"]], "err": x["err"] or y["err"]})
    return dump(d, cls, lines), res


# ------------------------------------------------------------------ S23: observation does not change the run
def s23_job(a):
    cls, tier, d = a
    r, cfgs = base_cfgs(cls, "S23", tier)
    if tier == "quick":
        cfgs = cfgs[:3]
    lines, res = [], []
    tmp = tempfile.mkdtemp(prefix="vlog_")
    cwd = os.getcwd()
    os.chdir(tmp)
    try:
        for n, c in enumerate(cfgs):
            base = slim(rec.run(c, timeout=40))
            how = [dict(log_to="file", log_file=os.path.join(tmp, "a.log")), dict(log_to="console", save_population=True),
                   dict(log_to=None, save_population=True, pname="another name"), dict(log_to="file", log_file=os.path.join(tmp, "b.log"), save_population=True)][(n + sum(map(ord, cls))) % 4]
            logging.disable(logging.NOTSET)
            err = os.dup(2)
            nul = os.open(os.devnull, os.O_WRONLY)
            os.dup2(nul, 2)
            try:
                c2 = dict(c, **how)
                if n == 0:
                    c2["params"] = dict(c["params"], name="my optimizer")
                b = slim(rec.run(c2, timeout=60))
            finally:
                os.dup2(err, 2); os.close(err); os.close(nul)
                logging.disable(logging.CRITICAL)
            tid = f"{cls}#{n}"
            lines.append(pair(tid, "same", base, b, c))
            res.append({"id": tid, "cfg": dict(c, second=how), "status": [base["status"], b["status"]], "err": base["err"] or b["err"]})
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)
    return dump(d, cls, lines), res


# ------------------------------------------------------------------ S19: saved models
def s19_job(a):
    cls, tier, d = a
    from mealpy.utils import io
    _ids.clear()
    r, cfgs = base_cfgs(cls, "S19", tier)
    if tier == "quick":
        cfgs = [cfgs[0], cfgs[1], cfgs[2]]
    if tier != "quick" or sum(map(ord, cls)) % 4 == SEED % 4:
        cfgs.append(mk(cls, r, "f2", "shift", epoch=105, fam="long", save_population=True))
    lines, res = [], []
    tmp = tempfile.mkdtemp(prefix="vsave_")
    try:
        for n, c in enumerate(cfgs):
            if n % 2:
                c = dict(c, save_population=True)
            o = mkopt(c)
            first = rec.run(c, opt=o, timeout=40)
            p = os.path.join(tmp, "m" + (".pkl" if n % 2 else ""))
            same = []
            q = o
            if first["status"] == "ok":
                try:
                    h0 = hist_id(o); g0 = ident([o.g_best.solution.tolist(), float(o.g_best.target.fitness)])
                    par0 = ident(dict(o.get_parameters()))
                    s0 = ident(str(o))
                    pop0 = ident([(x.solution.tolist(), float(x.target.fitness)) for x in o.pop])
                    dec0 = ident(o.problem.decode_solution(o.g_best.solution)) if "tb" not in str(c["bounds"]) else 0
                    io.save_model(o, p)
                    q = io.load_model(p)
                    same = [("saved_history", h0, hist_id(q)), ("saved_best", g0, ident([q.g_best.solution.tolist(), float(q.g_best.target.fitness)])),
                            ("saved_parameters", par0, ident(dict(q.get_parameters()))), ("saved_description", s0, ident(str(q))),
                            ("saved_population", pop0, ident([(x.solution.tolist(), float(x.target.fitness)) for x in q.pop])),
                            ("saved_problem", dec0, ident(q.problem.decode_solution(q.g_best.solution)) if dec0 else 0),
                            ("saved_counter", int(o.nfe_counter), int(q.nfe_counter)),
                            ("original_unchanged", h0, hist_id(o))]
                except Exception as e:   # noqa
                    same = [("save_and_load: " + f"{type(e).__name__}: {e}"[:100], 1, 0)]
            second = slim(rec.run(c, opt=q, timeout=40))
            tid = f"{cls}#{n}"
            lines.append(pair(tid, "same", slim(first), second, c, same))
            res.append({"id": tid, "cfg": c, "status": [first["status"], second["status"]], "err": first["err"] or second["err"]})
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return dump(d, cls, lines), res


# ------------------------------------------------------------------ S24: set_parameters() = constructor
def s24_job(a):
    cls, tier, d = a
    _ids.clear()
    r = random.Random(f"{SEED}:S24:{cls}")
    lines, res = [], []
    nv = corpus.nvar(cls, 10)
    for n in range(3 if tier == "quick" else 12):
        pop = [10, 10, 13, 20][n % 4]
        c = mk(cls, r, r.choice(["f5", "f3", "mix", "f17"]), r.choice(corpus.SINGLE), r.choice(["min", "max"]), pop=pop, vi=r.randrange(1, 8) if n else 0, epoch=r.choice([4, 6, 9]))
        fresh = mkopt(c)
        base = slim(rec.run(c, opt=fresh, timeout=40))
        if fresh is None:
            continue
        names = [k for k in c["params"] if k in fresh.get_parameters()]
        other = dict(corpus.params(cls, 10, r.randrange(8) % max(1, nv), 5))
        kind = n % 3
        rest = {k: v for k, v in c["params"].items() if k not in names}
        same = []
        o = None
        try:
            o = rec.classes()[cls](**rest) if kind == 0 else rec.classes()[cls](**dict(other, **rest))
            if kind == 2:      # used before
                rec.run(dict(c, params=other, seed=5), opt=o, timeout=40)
            if n % 2:
                p0 = ident(dict(o.get_parameters()))
                try:
                    o.set_parameters(dict({k: c["params"][k] for k in names}, no_such_parameter=1))
                    same.append(("unknown_rejected", 1, 0))
                except ValueError:
                    same.append(("unknown_rejected", 1, 1))
                same.append(("unknown_leaves_unchanged", p0, ident(dict(o.get_parameters()))))
            new = {k: c["params"][k] for k in names}
            dflt = inspect.signature(type(fresh).__init__).parameters
            for k in set(o.get_parameters()) - set(names):
                new[k] = dflt[k].default if k in dflt else fresh.get_parameters()[k]
            keep = ident(new)
            if kind == 1:      # one after the other
                for k in sorted(new, key=lambda k: r.random()):
                    o.set_parameters({k: new[k]})
            else:
                o.set_parameters(new)
            same += [("argument_unchanged", keep, ident(new)), ("parameters", ident(sorted((k, num(v)) for k, v in new.items())), ident(sorted((k, num(v)) for k, v in o.get_parameters().items()))),
                     ("attributes", ident([num(getattr(fresh, k)) for k in names if k not in rest]), ident([num(getattr(o, k)) for k in names if k not in rest])) if fresh.get_parameters().get("pop_size", 0) == getattr(fresh, "pop_size", 0) else ("attributes", 1, 1)]
        except Exception as e:      # noqa
            same.append(("set_parameters: " + f"{type(e).__name__}: {e}"[:100], 1, 0))
            o = o or fresh
        second = slim(rec.run(c, opt=o, timeout=40))
        tid = f"{cls}#{n}"
        lines.append(pair(tid, "same", base, second, c, same))
        res.append({"id": tid, "cfg": dict(c, kind=kind), "status": [base["status"], second["status"]], "err": base["err"] or second["err"]})
    return dump(d, cls, lines), res


# ------------------------------------------------------------------ S25: how the arguments are written does not matter
def s25_job(a):
    cls, tier, d = a
    _ids.clear()
    r = random.Random(f"{SEED}:S25:{cls}")
    lines, res = [], []
    for n in range(5 if tier == "quick" else 24):
        kind = ["start", "result", "term", "weights", "plain"][n % 5]
        shape = r.choice(["f5", "f3", "mix", "f17", "int4", "perm6", "str3", "mix2", "bin8"])
        c = mk(cls, r, shape, r.choice(corpus.SINGLE + ["int", "plateau"]), r.choice(["min", "max"]), pop=r.choice([10, 13]), vi=r.randrange(6), epoch=r.choice([3, 4]),
               mode=r.choice(["single", "single", "swarm"]))
        if kind == "weights":
            c["obj"], c["weights"] = r.choice(["multi3", "multi3nd"]), r.choice(corpus.WEIGHTS3)
        if kind == "term":
            c["term"] = r.choice([{"max_epoch": 2}, {"max_fe": 30}, {"max_early_stop": 1}, {"max_fe": 45, "max_early_stop": 3}])
        start = None
        if kind == "start":
            o = mkopt(c)
            if o is not None:
                start = solvecheck.rand_start(c, o.pop_size)
        form = {"salt": r.randrange(10 ** 6), "problem": r.choice(["dict", "dict", "object"]), "omit": r.random() < .7, "positional": r.random() < .5, "term": r.choice(["object", "dict"])}
        if kind not in ("weights",) and r.random() < .8:
            form["result"] = r.choice(["float", "np", "list", "tuple", "array", "int"])
        how = r.choice(["array", "tuple", "arrays"])
        base = slim(rec.run(dict(c, **({"start": start} if start else {})), timeout=40))
        alt = None if start is None else {"array": np.array(start), "tuple": tuple(tuple(s) for s in start), "arrays": [np.array(s) for s in start]}[how]
        second = slim(rec.run(dict(c, form=form, **({} if alt is None else {"start": alt})), timeout=40))
        tid = f"{cls}#{n}"
        lines.append(pair(tid, "same", base, second, c, [("problem_dictionary", 1, 1 if second.get("problem_same", True) else 0)]))
        res.append({"id": tid, "cfg": dict(c, form=form, kind=kind, start_form=how), "status": [base["status"], second["status"]], "err": base["err"] or second["err"]})
    return dump(d, cls, lines), res


KINDS = {"S25": s25_job, "S24": s24_job, "S09": s09_job, "S10": s10_job, "S11": s11_job, "S19": s19_job, "S23": s23_job}


def check(prop, tier, only=None):
    rep = Report(prop, tier)
    part(rep, prop, tier, only)
    return rep.finish()


def part(rep, prop, tier, only=None):
    d = tempfile.mkdtemp(prefix="vprod_")
    try:
        names = sorted(rec.classes())
        if prop == "S11":
            excl = set(json.load(open(os.path.join(HERE, "classes.json")))["not_dual"])
            names = [n for n in names if n not in excl]
        if only:
            names = [n for n in names if n in only]
        if not names:
            return
        jobs = [(c, tier, d) for c in names]
        if prop == "S08":
            with_hashseed(0, s08_a, jobs, chunksize=2)
            out = with_hashseed(4242, s08_b, jobs, chunksize=2)
        else:
            out = run_jobs(KINDS[prop], jobs, chunksize=2)
        info = {r["id"]: r for _, l in out for r in l}
        sh = solvecheck.shards([p for p, _ in out], d)
        # canaries: two different runs of the same optimizer must be told apart
        with open(sh[0]) as f:
            lns = [json.loads(l) for l in f]
        can = []
        good = [t for t in lns if all(x["status"] == "ok" for x in t["runs"]) and len(t["runs"][1]["ev"]) > 2 and t["runs"][1]["ev"][1]["evals"]]
        for k, t in enumerate(good[:3]):
            c = json.loads(json.dumps(t)); c["id"] = f"canary#{k}"
            if k == 0:
                c["runs"][1]["ev"][0 if prop == "S11" else 1]["evals"][0] += 1
            elif k == 1 and prop == "S11":
                c["runs"][1]["ev"][0]["gb"][2] -= 1
            elif k == 1:
                c["runs"][1]["fin"]["ret"][0] += 1
            else:
                c["same"].append({"n": "x", "a": 1, "b": 2})
            can.append(c)
        with open(sh[0], "a") as f:
            for c in can:
                f.write(json.dumps(c, separators=(",", ":")) + "\n")
        outs, st = tlc.judge_many("Product", "SPECIFICATION Spec\n", sh)
        fails = [x for o in outs for x in o["fails"]]
        caught = {x["id"] for x in fails if x["id"].startswith("canary#")}
        if (len(caught) != len(can) or not (can or only)) and len(caught) == len({x["id"] for x in fails}):
            raise SystemExit(f"machinery failure: corrupted pairs accepted ({len(caught)} of {len(can)} rejected)")
        byid = {}
        for x in fails:
            if not x["id"].startswith("canary#"):
                byid.setdefault(x["id"], []).append(x)
        for i, xs in byid.items():
            c = info[i]["cfg"]
            cl = sorted({x["clause"] for x in xs})
            rep.violation((c["cls"], cl[0]), f"{c['cls']}: {', '.join(cl)} differ at epoch boundary {xs[0]['at']}; statuses {info[i]['status']} {info[i]['err']} "
                          f"({json.dumps({k: v for k, v in c.items() if k != 'bounds'}, default=str)[:300]})", {"cfg": c, "clauses": cl, "at": xs[0]["at"]})
        rep.add({"states": sum(s["distinct"] for s in st), "transitions": sum(s["generated"] for s in st),
                   "traces_validated_against_impl": 2 * len(info), "optimizers": len(names), "pairs": len(info),
                   "pairs_equal": sum(o.get("equal", 0) for o in outs), "pairs_until_a_tie": sum(o.get("tied", 0) for o in outs), "epoch_boundaries_compared": sum(o.get("events", 0) for o in outs),
                   "pairs_timed_out": sum(1 for r in info.values() if "timeout" in r["status"]), "pairs_ended_by_error": sum(1 for r in info.values() if r["status"] != ["ok", "ok"]), "corrupted_pairs_rejected": len(caught)})
        rep.samples += [{k: v for k, v in info[i]["cfg"].items() if k != "bounds"} for i in list(info)[:: max(1, len(info) // 8)]][:8]
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(check(sys.argv[1], sys.argv[2], sys.argv[3:] or None))
