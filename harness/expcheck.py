"""S15, S16: ParameterGrid, Tuner and Multitask. Experiments.tla is model checked (ExpMC) and recorded uses are judged by ExpTrace.tla."""
import contextlib
import io
import json
import math
import os
import random
import shutil
import tempfile

import numpy as np

import exprec
import solvecheck
import tlc
from common import SEED
from exprec import num, prob_id, term_id
from pool import run_jobs

BAD = -999999999


def whole(v):
    try:
        v = float(v)
    except (TypeError, ValueError):
        return BAD
    if math.isnan(v):
        return -1
    r = round(v)
    return int(r) if abs(v - r) < 1e-6 * max(1., abs(v)) and abs(r) < 2 ** 31 - 1 else BAD


class Ids:
    def __init__(self):
        self.d = {}

    def __call__(self, x):
        return self.d.setdefault(x, len(self.d) + 1)


def list_of_grids(d):
    """documented: `param_grid` may be a list of dictionaries, one grid each"""
    from mealpy import Tuner
    r = random.Random(3)
    alg = exprec.Stub(log=os.path.join(d, "log_grids"), script=losses(r, "min", False, 20))
    try:
        t = Tuner(alg, [{"a": [1, 2]}, {"b": ["x"], "c": [True, False]}])
        with contextlib.redirect_stdout(io.StringIO()):
            t.execute(problem=mkproblem(r, "min", "probe"), n_trials=2, verbose=False)
        got = [dict(p) for p in t.df_fit["params"]]
        return None if got == [{"a": 1}, {"a": 2}, {"b": "x", "c": True}, {"b": "x", "c": False}] else f"runs of a list of grids: {got}"
    except Exception as e:      # noqa
        return f"Tuner(param_grid=[dict, dict]) raises {type(e).__name__}: {e}"[:200]


def losses(r, minmax, big, n):
    """n scripted convergence lists; fitness values are multiples of 60, with many ties"""
    top = r.choice([2, 3, 40])
    out = []
    for _ in range(n):
        f = 60 * r.randint(0 if big else -top, top)
        k = r.randint(1, 4)
        up = sorted((60 * r.randint(0, 5) for _ in range(k - 1)), reverse=True)
        out.append([f + u if minmax == "min" else f - min(u, f) if big else f - u for u in up] + [f])
    return out


# --- ParameterGrid ---------------------------------------------------------------------------------

def grid_line(tid, r):
    from mealpy.tuner import ParameterGrid
    names = ["epoch", "zz", "a", "B", "m1", "c"]
    user, spec = [], []
    for _ in range(r.choice([1, 1, 2, 3])):
        ks = r.sample(names, r.randint(0, 4))
        g, s = {}, []
        for k in ks:
            n = r.randint(1, 3)
            raw = r.sample([1, 2.5, "x", None, True, (1, 2), -3], n)
            if r.random() < .2:
                raw = raw + raw[:1]
            code, vals = [], []
            seen = {}
            for v in raw:
                code.append(seen.setdefault(repr(v), len(seen) + 1))
            if r.random() < .3:
                raw = np.array([10 * c for c in code])
            elif r.random() < .5:
                raw = tuple(raw)
            g[k] = raw
            s.append((k, code, list(raw)))
        user.append(g)
        spec.append(s)
    arg = user[0] if len(user) == 1 and r.random() < .7 else r.choice([list, tuple])(user)

    def tag(pt):
        """the point as (grid, values) numbers; grids are told apart by the order of the caller"""
        return pt

    def conv(points):
        out, k = [], 0
        for gi, s in enumerate(spec):
            n = int(np.prod([len(c) for _, c, _ in s])) if s else 1
            for _ in range(n):
                if k >= len(points):
                    break
                pt = points[k]
                if list(pt) != [nm for nm, _, _ in s]:
                    out.append({"g": -1, "p": []})
                else:
                    out.append({"g": gi + 1, "p": [next((c for c, v in zip(cs, vs) if v is pt[nm] or (type(v) is type(pt[nm]) and v == pt[nm])), -1) for nm, cs, vs in s]})
                k += 1
        out += [{"g": -2, "p": []}] * (len(points) - k)
        return out
    pg = ParameterGrid(arg)
    pts = list(pg)
    line = {"id": tid, "kind": "grid", "grids": [[c for _, c, _ in s] for s in spec], "ev": [{"e": "grid"}], "len": -1, "items": [], "beyond": "none", "points": conv(pts)}
    try:
        line["len"] = len(pg)
        line["items"] = conv([pg[k] for k in range(len(pts))])
        try:
            pg[len(pts)]
        except Exception as e:      # noqa
            line["beyond"] = type(e).__name__
        line["ev"].append({"e": "same", "what": "grid_iterates_again", "x": conv(list(pg)) == line["points"], "y": True})
    except Exception as e:      # noqa
        line["beyond"] = f"{type(e).__name__}: {e}"[:80]
    return line, {"id": tid, "kind": "grid", "grid": repr(arg)[:300]}


# --- Tuner ------------------------------------------------------------------------------------------

def mkproblem(r, minmax, name):
    from mealpy import FloatVar, Problem
    d = {"bounds": FloatVar(lb=(-5., -5., -5.), ub=(5., 4., 5.)), "minmax": minmax, "obj_func": exprec.IntObj(), "name": name, "log_to": None}
    return d if r.random() < .6 else Problem(**d)


def mkterm(r, k):
    from mealpy import Termination
    c = r.randrange(3)
    return [None, {"max_fe": 1000 + k}, Termination(max_fe=1000 + k, log_to=None)][c]


def tuner_line(tid, r, d, real=None, jobs=None, figures=False):
    from mealpy import Tuner
    import pandas as pd
    minmax = r.choice(["min", "max"])
    log = os.path.join(d, tid.replace("#", "_") + ".log")
    n = r.choice([1, 2, 2, 3, 4, 5]) if not real else r.choice([1, 2, 3])
    if real:
        alg = exprec.REAL[real](epoch=3, pop_size=10)
        alg.log = log
        pool = {"epoch": [2, 3, 5], "pop_size": [10, 12, 20]}
        for k, v in alg.get_parameters().items():
            if k not in pool and isinstance(v, float) and len(pool) < 4:
                pool[k] = [v, v * 0.95]
    else:
        alg = exprec.Stub(log=log, script=losses(r, minmax, False, 50))
        pool = {"epoch": [2, 3, 5], "pop_size": [10, 12, 20, 30], "a": [1, 2.5, -3], "b": ["x", "y", "z w"], "c": [True, False]}
    ks = r.sample(sorted(pool), r.randint(1 if figures else 0, min(3, len(pool))) if r.random() < .9 or real else len(pool))
    if real and "epoch" not in ks:
        ks.append("epoch")
    grid, codes = {}, []
    for k in ks:
        vs = r.sample(pool[k], r.randint(1, min(len(pool[k]), 3)))
        if k in ("epoch", "pop_size") and r.random() < .3:
            grid[k] = np.array(vs)
        else:
            grid[k] = r.choice([list, tuple])(vs)
        codes.append({num(v): j + 1 for j, v in enumerate(vs)})
    size = int(np.prod([len(c) for c in codes])) if codes else 1
    mode = r.choice(["single", "single", "swarm", "thread", "nonsense"])
    xw = r.choice([2, 3, 4])
    prob, term = mkproblem(r, minmax, "probe"), mkterm(r, r.randrange(50))
    res = {"id": tid, "kind": "tuner", "alg": real or "Stub", "grid": repr(grid)[:200], "n_trials": n, "minmax": minmax, "mode": mode, "jobs": jobs, "script": not real}
    line = {"id": tid, "kind": "tuner", "min": minmax == "min", "grid": [[j + 1 for j in range(len(c))] for c in codes], "n": n, "par": bool(jobs), "ev": [], "table": [], "losses": [],
            "xm": "single" if mode == "nonsense" else mode, "xw": str(xw), "xt": term_id(term), "xb": "probe", "rm": "", "rw": "", "rt": "", "rb": "probe"}

    def code(p):
        return [c.get(num(p[k]) if not isinstance(p[k], str) or True else p[k], -1) for k, c in zip(ks, codes)]

    def ev(e):
        e = json.loads(e) if isinstance(e, str) else e
        e["p"] = [c.get(e["p"].get(k), -1) for k, c in zip(ks, codes)]
        e["q"] = [c.get(e["q"].get(k), -1) for k, c in zip(ks, codes)]
        e["fit"], e["loss"] = whole(e["fit"]), [whole(v) for v in e["loss"]]
        return e
    same = lambda what, x, y: line["ev"].append({"e": "same", "what": what, "x": str(x), "y": str(y)})
    try:
        keep = repr(grid)
        tuner = Tuner(alg, grid)
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            tuner.execute(problem=prob, termination=term, n_trials=n, n_jobs=jobs, mode=mode, n_workers=xw, verbose=r.random() < .5)
        seen = [ev(x) for x in open(log)] if os.path.exists(log) else []
        line["ev"] += seen
        nlog = len(seen)
        df = tuner.df_fit
        for _, w in df.iterrows():
            line["table"].append({"p": code(w["params"]), "fits": [whole(w[f"trial_{j + 1}"]) for j in range(n)], "mean": whole(w["trial_mean"] * n),
                                  "std": -1 if math.isnan(w["trial_std"]) else whole(w["trial_std"] ** 2 * (n - 1) * n),
                                  "rm": whole(2 * w["rank_mean"]), "rs": whole(2 * w["rank_std"]) if n > 1 else 0, "rms": whole(2 * w["rank_mean_std"]) if n > 1 else 0})
        for _, w in tuner.df_loss.iterrows():
            nl = sorted(int(c) for c in tuner.df_loss.columns if c not in ks + ["trial"])
            vals = [w[c] for c in nl]
            while vals and isinstance(vals[-1], float) and math.isnan(vals[-1]):
                vals.pop()
            line["losses"].append({"p": code(w), "tr": whole(w["trial"]), "loss": [whole(v) for v in vals]})
        line["ev"].append({"e": "table"})
        alg2 = tuner.best_algorithm
        line["ev"].append({"e": "best", "p": code(tuner.best_params), "score": whole(tuner.best_score * n), "rows": [int(x) + 1 for x in tuner.best_row.index],
                           "q": [c.get(num(alg2.get_parameters()[k]), -1) for k, c in zip(ks, codes)]})
        same("best_algorithm_is_the_algorithm", alg2 is alg, True)
        same("grid_unchanged", keep, repr(grid))
        # exported results are the table
        ext = r.choice(["csv", "json", "dataframe"])
        tuner.export_results(save_path=os.path.join(d, tid.replace("#", "_")), file_name=f"out.{ext}")
        p = os.path.join(d, tid.replace("#", "_"), "out." + {"dataframe": "pkl"}.get(ext, ext))
        if ext == "csv":
            back = pd.read_csv(p)
            cols = {c: list(back[c]) for c in back.columns}
        elif ext == "json":
            raw = json.load(open(p))
            cols = {c: [v[str(k)] for k in range(len(v))] for c, v in raw.items()}
        else:
            back = pd.read_pickle(p)
            cols = {c: list(back[c]) for c in back.columns}
        same("exported_columns", list(cols), list(df.columns))
        for c in df.columns:
            if c == "params":
                same("exported_rows", len(cols.get(c, [])), len(df))
            else:
                same("exported_values", [whole(1000 * (v if v is not None else math.nan)) if c in ("trial_mean",) else "n" if v is None or math.isnan(v) else f"{v:.6f}" for v in cols.get(c, [])],
                     [whole(1000 * v) if c in ("trial_mean",) else "n" if math.isnan(v) else f"{v:.6f}" for v in df[c]])
        if figures:
            fp = os.path.join(d, tid.replace("#", "_") + "_fig")
            tuner.export_figures(save_path=fp, exts=(".png",))
            got = sorted(os.path.relpath(os.path.join(a, f), fp) for a, _, fs in os.walk(fp) for f in fs)
            want = n * sum(size // len(c) for c in codes if len(c) > 1)
            same("figures", len([g for g in got if g.endswith(".png")]), want)
            lf = pd.read_csv(os.path.join(fp, "tuning_epoch_fit.csv"))
            same("exported_losses", [[whole(x) for x in list(w)[len(ks) + 1:]] for w in lf.values.tolist()] if lf.shape == tuner.df_loss.shape else lf.shape,
                 [[whole(x) for x in list(w)[len(ks) + 1:]] for w in tuner.df_loss.values.tolist()])
        # resolve
        m2, w2, t2 = r.choice(["single", "swarm"]), r.choice([None, 2]), mkterm(r, 60)
        line.update(rm=m2, rw=str(w2), rt=term_id(t2))
        best = code(tuner.best_params)
        if r.random() < .5 and ks:      # whatever happened to the algorithm in between
            alg.set_parameters({ks[0]: grid[ks[0]][-1]})
        with contextlib.redirect_stderr(io.StringIO()):
            g = tuner.resolve(mode=m2, n_workers=w2, termination=t2)
        tail = [ev(x) for x in open(log)][nlog:]
        same("one_run_of_resolve", len(tail), 1)
        for e in tail[:1]:
            e.update(e="resolve", want=best, ret=whole(g.target.fitness))
            line["ev"].append(e)
    except Exception as e:      # noqa
        same("error: " + f"{type(e).__name__}: {e}"[:120], 0, 1)
    return line, res


# --- Multitask ---------------------------------------------------------------------------------------

def multi_line(tid, r, d, real=False, jobs=None):
    from mealpy import Multitask
    import pandas as pd
    log = os.path.join(d, tid.replace("#", "_") + ".log")
    al, m, n = r.randint(1, 3), r.randint(1, 3), r.choice([1, 2, 3])
    if r.random() < .3:
        m = al
    algs, live = [], []
    for k in range(al):
        if real:
            c = r.choice(sorted(exprec.REAL))
            o = exprec.REAL[c](epoch=r.choice([2, 3]), pop_size=10, name=f"alg {k + 1}")
            o.log, o.tag = log, k + 1
        elif r.random() < .1 and al > 1 and k:
            o = r.choice([None, "PSO", exprec.Stub])
        else:
            o = exprec.Stub(log=log, script=losses(r, "min", True, 37), tag=k + 1, name=f"alg {k + 1}")
        algs.append(o)
        if isinstance(o, exprec.Optimizer):
            live.append(k + 1)
    probs = [mkproblem(r, r.choice(["min", "max"]), f"pb {j + 1}") for j in range(m)]

    def settings(make):
        ln = r.choice([0, 1, 1, al, m, al * m])
        return [make(k) for k in range(ln)] or None
    terms = settings(lambda k: [{"max_fe": 2000 + k}, exprec.Termination(max_fe=2000 + k, log_to=None)][r.randrange(2)])
    modes = settings(lambda k: r.choice(["single", "swarm", "thread"]))
    xw = r.choice([None, 2, 3])
    tids, mids = [term_id(x) for x in terms or []], list(modes or [])
    line = {"id": tid, "kind": "multi", "a": len(live), "all": al, "live": live, "m": m, "n": n, "par": bool(jobs), "terms": tids, "modes": mids, "single": "single", "xw": str(xw), "ev": []}
    res = {"id": tid, "kind": "multi", "algorithms": [getattr(o, "tag", None) and type(o).__name__ for o in algs], "problems": m, "n_trials": n, "jobs": jobs, "terms": tids, "modes": mids}
    same = lambda what, x, y: line["ev"].append({"e": "same", "what": what, "x": str(x), "y": str(y)})
    save_as = r.choice(["csv", "json", "dataframe"])
    conv = r.random() < .7
    path = os.path.join(d, tid.replace("#", "_"))
    for ln in (al * m + 1, r.randint(2, 9)):
        try:
            Multitask(algorithms=algs, problems=probs, terminations=[{"max_fe": 5}] * ln, log_to=None)
            got = "accepted"
        except ValueError:
            got = "ValueError"
        except Exception as e:      # noqa
            got = type(e).__name__
        line["ev"].append({"e": "refused", "len": ln, "got": got})

    def term0(e):
        e["t"] = "" if e["t"] == "none" and not tids else e["t"]
        return e
    try:
        mt = Multitask(algorithms=r.choice([list, tuple])(algs), problems=r.choice([list, tuple])(probs), terminations=terms if terms is None else r.choice([list, tuple])(terms),
                       modes=modes if modes is None else r.choice([list, tuple])(modes), n_workers=xw)
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            mt.execute(n_trials=n, n_jobs=jobs, save_path=path, save_as=save_as, save_convergence=conv, verbose=r.random() < .5)
        seen = [json.loads(x) for x in open(log)] if os.path.exists(log) else []
        for e in seen:
            line["ev"].append({"e": "solve", "a": e["a"], "b": int(e["b"].split()[-1]) if e["b"].startswith("pb ") else -1, "t": "0" if e["t"] == "none" else e["t"], "m": e["m"], "w": e["w"],
                               "fit": whole(e["fit"]), "loss": [whole(v) for v in e["loss"]]})
        line["terms"] = tids
        line["noterm"] = "0"
        ext = {"dataframe": "pkl"}.get(save_as, save_as)

        def load(p):
            if ext == "csv":
                b = pd.read_csv(p)
                return {c: list(b[c]) for c in b.columns}
            if ext == "json":
                return {c: [v[str(k)] if v[str(k)] is not None else math.nan for k in range(len(v))] for c, v in json.load(open(p)).items()}
            b = pd.read_pickle(p)
            return {c: list(b[c]) for c in b.columns}
        idx = lambda s: int(s.split(" ")[-1].split("_")[-1]) if s.split(" ")[-1].split("_")[-1].isdigit() else -1
        files = sorted(os.path.relpath(os.path.join(a, f), path) for a, _, fs in os.walk(path) for f in fs)
        want = [f"best_fit/alg {k}_best_fit.{ext}" for k in live] + ([f"convergence/alg {k}/pb {j + 1}_convergence.{ext}" for k in live for j in range(m)] if conv else [])
        same("files", files, sorted(want))
        for q, k in enumerate(live):
            t = load(os.path.join(path, f"best_fit/alg {k}_best_fit.{ext}"))
            line["ev"].append({"e": "file", "a": q + 1, "names": [idx(c) for c in t], "cols": [[whole(v) for v in c] for c in t.values()]})
            for j in range(m if conv else 0):
                t = load(os.path.join(path, f"convergence/alg {k}/pb {j + 1}_convergence.{ext}"))
                line["ev"].append({"e": "conv", "a": q + 1, "b": j + 1, "names": [idx(c) for c in t], "cols": [[whole(v) for v in c] for c in t.values()]})
        line["ev"].append({"e": "end"})
    except Exception as e:      # noqa
        same("error: " + f"{type(e).__name__}: {e}"[:120], 0, 1)
    return line, res


# --- jobs ----------------------------------------------------------------------------------------------

def job(a):
    prop, k, tier, d = a
    import matplotlib
    matplotlib.use("Agg")
    r = random.Random(f"{SEED}:{prop}:{k}")
    out, info = [], []
    big = tier != "quick"

    def put(x):
        out.append(x[0]); info.append(x[1])
    if prop == "S15":
        for j in range(6 if not big else 30):
            put(grid_line(f"grid{k}#{j}", r))
        for j in range(6 if not big else 30):
            put(tuner_line(f"tuner{k}#{j}", r, d))
        put(tuner_line(f"tunerjobs{k}#0", r, d, jobs=r.choice([2, 3])))
        if k % 2 == 0 or big:
            names = sorted(exprec.REAL)
            put(tuner_line(f"tunerreal{k}#0", r, d, real=names[k % len(names)], jobs=2 if k % 4 == 0 else None))
        if k % 4 == 0 or big:
            put(tuner_line(f"tunerfig{k}#0", r, d, figures=True))
    else:
        for j in range(8 if not big else 40):
            put(multi_line(f"multi{k}#{j}", r, d))
        put(multi_line(f"multijobs{k}#0", r, d, jobs=2))
        put(multi_line(f"multireal{k}#0", r, d, real=True, jobs=2 if k % 3 == 0 else None))
    p = os.path.join(d, f"{prop}_{k}.ndjson")
    with open(p, "w") as f:
        for x in out:
            f.write(json.dumps(x) + "\n")
    return p, info


def corrupt(lines):
    out = []
    for t in lines:
        t = json.loads(json.dumps(t))
        if t["kind"] == "tuner" and len(t["table"]) > 1 and t["n"] > 1:
            k = len(out) % 3
            if k == 0:
                t["table"][0]["fits"][0] += 60
            elif k == 1:
                t["ev"] = [e for j, e in enumerate(t["ev"]) if j != 0]
            else:
                t["table"][-1]["rm"] += 1
        elif t["kind"] == "multi" and any(e["e"] == "file" for e in t["ev"]):
            e = next(e for e in t["ev"] if e["e"] == "file")
            e["cols"][0][0] += 60
        else:
            continue
        t["id"] = f"canary#{len(out)}"
        out.append(t)
        if len(out) >= 6:
            break
    return out


MC = "SPECIFICATION Spec\nCONSTANTS MaxVals = {} MaxTrials = {} MaxFit = {} Algs = {} Probs = {}\nINVARIANTS BestIsExtreme BestIsSteadiest RanksConsistent SpreadNonNegative GridComplete MultiComplete EntriesUsed RefusedOnlyIfUnclear\n"


def part(rep, prop, tier):
    d = tempfile.mkdtemp(prefix="vexp_")
    try:
        out = run_jobs(job, [(prop, k, tier, d) for k in range(16 if tier == "quick" else 48)], chunksize=1)
        info = {x["id"]: x for _, l in out for x in l}
        for p, _ in out:     # absent settings
            with open(p) as f:
                lns = [json.loads(x) for x in f]
            with open(p, "w") as f:
                for t in lns:
                    if t["kind"] == "multi":
                        for e in t["ev"]:
                            if e["e"] == "solve" and not t["terms"] and e["t"] == "0":
                                e["t"] = 0
                    f.write(json.dumps(t) + "\n")
        sh = solvecheck.shards([p for p, _ in out], d)
        with open(sh[0]) as f:
            can = corrupt([json.loads(x) for x in f])
        with open(sh[0], "a") as f:
            for c in can:
                f.write(json.dumps(c) + "\n")
        outs, st = tlc.judge_many("ExpTrace", "SPECIFICATION Spec\n", sh)
        fails = [x for o in outs for x in o["fails"]]
        caught = {x["id"] for x in fails if x["id"].startswith("canary#")}
        if (len(caught) != len(can) or not can) and len(caught) == len({x["id"] for x in fails}):
            raise SystemExit(f"machinery failure: altered recordings accepted ({len(caught)} of {len(can)} rejected)")
        by = {}
        for x in fails:
            if not x["id"].startswith("canary#"):
                by.setdefault(x["id"], []).append(x)
        for i, xs in sorted(by.items()):
            cl = sorted({x["clause"] for x in xs})
            rep.violation((info[i]["kind"], cl[0]), f"{i}: {', '.join(cl)} ({json.dumps(info[i], default=str)[:400]})", {"case": info[i], "clauses": cl})
        if prop == "S15":
            bad = list_of_grids(d)
            if bad:
                rep.violation(("tuner", "list_of_grids"), bad, {"param_grid": [{"a": [1, 2]}, {"b": ["x"], "c": [True, False]}]})
        _, txt, mc = tlc.run("ExpMC", MC.format(*((3, 2, 2, 3, 3) if tier == "quick" else (3, 3, 2, 4, 4))), workers="4", timeout=800, xmx="4g", ok=None)
        if "No error has been found" not in txt:
            rep.violation(("ExpMC",), "model checking of Experiments.tla found: " + txt[-600:], {"output": txt[-3000:]})
        rep.add({"states": sum(s["distinct"] for s in st) + mc["distinct"], "transitions": sum(s["generated"] for s in st) + mc["generated"], "model_states": mc["distinct"],
                 "traces_validated_against_impl": len(info), "events": sum(o.get("events", 0) for o in outs), "altered_recordings_rejected": len(caught)})
        rep.samples += [info[i] for i in list(info)[:: max(1, len(info) // 8)]][:8]
    finally:
        shutil.rmtree(d, ignore_errors=True)
