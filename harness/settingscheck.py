"""S14, S26: settings and the registry. Settings.tla is model checked (SettingsMC); what the real constructors, validators and
solve() accept, refuse and store is judged by SettingsTrace.tla. ranges.json holds the declared rules (tools/mkranges.py)."""
import contextlib
import importlib
import inspect
import io
import json
import math
import os
import pkgutil
import random
import shutil
import tempfile

import numpy as np

import rec
import tlc
from common import SEED
from pool import run_jobs

HERE = os.path.dirname(os.path.abspath(__file__))
NOBOUND = -1
INF = math.inf


def typ(v):
    if v is None:
        return "none"
    if isinstance(v, (bool, np.bool_)):
        return "bool"
    if isinstance(v, (int, np.integer)):
        return "int"
    if isinstance(v, (float, np.floating)):
        return "nan" if v != v else "float"
    return {str: "str", list: "list", tuple: "tuple"}.get(type(v), "other")


def num(v):
    return typ(v) in ("int", "float", "bool")


def enc_rule(r, v, extra=()):
    """(rule, value, ranks of extra) with ranks for all numbers"""
    bounds = []

    def bd(x):
        if x["kind"] in ("int", "float"):
            bounds.extend([float(x["lo"]), float(x["hi"])])
    bd(r)
    if r["kind"] == "intfloat":
        bd(r["int"]), bd(r["float"])
    vals = sorted({b for b in bounds if math.isfinite(b)} | ({float(v)} if num(v) else set()) | {float(e) for e in extra if num(e)})
    # rank 0 is kept for what is no number
    rk = lambda x: 1 + vals.index(float(x)) if num(x) and float(x) in vals else 0       # noqa
    b = lambda x: NOBOUND if not math.isfinite(float(x)) else rk(float(x))     # noqa
    q = {"kind": r["kind"], "closed": True, "lo": NOBOUND, "hi": NOBOUND, "fclosed": True, "flo": NOBOUND, "fhi": NOBOUND, "choices": list(r.get("choices", []))}
    i = r["int"] if r["kind"] == "intfloat" else r
    if i["kind"] in ("int", "float"):
        q["closed"], q["lo"], q["hi"] = i["closed"], b(i["lo"]), b(i["hi"])
    if r["kind"] == "intfloat":
        f = r["float"]
        q["fclosed"], q["flo"], q["fhi"] = f["closed"], b(f["lo"]), b(f["hi"])
    t = typ(v)
    val = {"t": t, "r": rk(v) if num(v) else len(v) if t in ("list", "tuple") else 0, "c": v if t == "str" else ""}
    return q, val, [rk(e) if num(e) else 0 for e in extra]


CALL = {"op": "set", "rule": {}, "v": {}, "got": "", "kept": 0, "want": 0, "n": 0, "x": [], "y": [], "what": ""}


class Line:
    def __init__(self, tid):
        self.d = {"id": tid, "calls": []}
        self.txt = []

    def set(self, rule, v, fn, what, op="set"):
        """fn() -> the stored value (None: not looked at); it raises if the value is refused"""
        n = [0]
        try:
            kept = fn(n) if op == "solve" else fn()
            got = "ok"
        except ValueError:
            kept, got = None, "ValueError"
        except Exception as e:      # noqa
            kept, got = None, f"{type(e).__name__}: {e}"[:120]
        want = v
        if rule["kind"] == "int" and num(v) and math.isfinite(v):
            want = int(v)
        if got != "ok" or kept is None:
            kept = want = None
        ex = (kept, want) if num(kept) and num(want) else ()
        q, val, rs = enc_rule(rule, v, ex)
        k, w = rs if ex else (0, 0) if type(kept) is type(want) and kept == want else (0, 1)
        if got == "ok" and rule["kind"] in ("int", "float") and want is not None and type(kept) is not {"int": int, "float": float}[rule["kind"]]:
            k, w = 0, 1
        self.d["calls"].append(dict(CALL, op=op, rule=q, v=val, got=got, kept=k, want=w, n=n[0]))
        self.txt.append(f"{what}={v!r}: {got}" + (f", stored {kept!r}" if got == "ok" and kept is not None else ""))

    def same(self, what, fn):
        try:
            x, y = fn()
        except Exception as e:      # noqa
            x, y = [f"{type(e).__name__}: {e}"[:150]], []
        self.d["calls"].append(dict(CALL, op="same", rule={"kind": ""}, v={"t": "none"}, x=[str(a) for a in x], y=[str(a) for a in y], what=what))
        a, b = sorted(set(map(str, x)) - set(map(str, y)))[:4], sorted(set(map(str, y)) - set(map(str, x)))[:4]
        self.txt.append(f"{what}: {a} instead of {b}")


def junk(r, rule):
    out = [None, "abc", [1, 2], float("nan"), {}, (1,)]
    if rule["kind"] == "str":
        out = [None, 1, 2.5, ["abc"], rule["choices"][0] + " ", ""] + list(rule["choices"][:1])
    if rule["kind"] == "bool":
        out = [None, 1, 0, "True", 2.5]
    return out


def more(r, rule):
    k = rule["kind"]
    if k in ("int", "float"):
        lo, hi = max(float(rule["lo"]), -1e6), min(float(rule["hi"]), 1e6)
        vs = [r.uniform(lo - .3 * (hi - lo) - 1, hi + .3 * (hi - lo) + 1) for _ in range(3)] + [lo + (hi - lo) * 1e-9, hi - (hi - lo) * 1e-9, hi + (hi - lo) * 1e-7, lo - (hi - lo) * 1e-7]
        if k == "int":
            return [round(v) for v in vs] + [np.int64(round(vs[0])), float(round(vs[1])), math.floor(vs[2]) + .5]
        return vs + [np.float64(vs[0])] + [x for x in (round(vs[1]),)]
    return []


def ctor_line(tid, name, blocks, r, deep):
    cls = rec.classes()[name]
    L = Line(tid)
    for b in blocks:
        for p, d in b["params"].items():
            vals = list(d["probes"]) + junk(r, d["rule"])
            if deep:
                # values inside are taken only if nothing depends on this parameter
                free = p not in ("epoch", "pop_size") and not (name == "OriginalBCO") and name not in MANY
                vals += [v for v in more(r, d["rule"]) if free or not inside(d["rule"], v)]
            for v in vals:
                L.set(d["rule"], v, lambda: cls(**{**b["base"], p: v}).get_parameters()[p], f"{name}({b['base'] or ''} {p}")
    return L


# optimizers with more than one dependent pair of parameters: only the recorded probes are given
MANY = {"OriginalIWO", "OriginalBCO", "OriginalMSA", "OriginalWHO", "OriginalSHO", "HI_WOA", "OriginalBMO"}


def inside(r, v):
    return num(v) and r["kind"] in ("int", "float") and (float(r["lo"]) <= v <= float(r["hi"]) if r["closed"] else float(r["lo"]) < v < float(r["hi"]))


def rnd_rule(r, k):
    if k == "intfloat":
        return {"kind": k, "int": rnd_rule(r, "int"), "float": rnd_rule(r, "float")}
    if k in ("int", "float"):
        lo = r.choice([-INF, r.randint(-5, 5), r.randint(-50, 50), round(r.uniform(-2, 2), 2)])
        hi = r.choice([INF, (0 if lo == -INF else lo) + r.choice([0, 1, 2, 10, 1000])])
        return {"kind": k, "closed": r.random() < .5, "lo": lo, "hi": hi}
    if k == "str":
        return {"kind": k, "choices": r.sample(["aa", "b", "Cc", "aab", "min", "max"], r.randint(1, 4))}
    return {"kind": k}


def bound(r):
    return [r["lo"], r["hi"]] if r["closed"] else (r["lo"], r["hi"])


def rnd_val(r, rule):
    k = rule["kind"]
    x = r.random()
    if x < .12:
        return r.choice([None, "abc", "", [1], (1, 2), float("nan"), {}, True])
    if k == "intfloat":
        return rnd_val(r, r.choice([rule["int"], rule["float"]]))
    if k in ("int", "float"):
        lo, hi = (b if math.isfinite(b) else s * 1e4 for b, s in ((float(rule["lo"]), -1), (float(rule["hi"]), 1)))
        v = r.choice([lo, hi, lo + 1, hi - 1, lo - 1, hi + 1, (lo + hi) / 2, lo - 1e-9, hi + 1e-9, lo + 1e-9, hi - 1e-9, r.uniform(lo - 5, hi + 5)])
        return int(v) if v == int(v) and r.random() < .6 else v
    if k == "str":
        return r.choice(rule["choices"] + ["aa", "A", "mi", 3])
    return r.choice([True, False, 1, 0, "True"])


def validator_line(tid, r, n):
    from mealpy.utils.validator import Validator
    L = Line(tid)
    V = Validator(log_to=None, log_file=None)
    for _ in range(n):
        k = r.choice(["int", "float", "int", "float", "str", "bool", "intfloat", "list"])
        rule = rnd_rule(r, k)
        if k == "bool":
            fn = lambda v: V.check_bool("x", v)     # noqa
        elif k == "str":
            fn = lambda v: V.check_str("x", v, rule["choices"])     # noqa
        elif k == "list":
            fn = lambda v: (V.check_list_tuple("x", v, "thing"), None)[1]     # noqa
        elif k == "intfloat":
            fn = lambda v: V.check_is_int_and_float("x", v, bound(rule["int"]), bound(rule["float"]))     # noqa
        else:
            fn = lambda v: (V.check_int if k == "int" else V.check_float)("x", v, bound(rule))     # noqa
        v = r.choice([[], [1], (), (1, 2), "ab", None, 3, {1: 2}]) if k == "list" else rnd_val(r, rule)
        if k in ("int", "intfloat") and isinstance(v, float) and not math.isfinite(v):
            continue
        if k == "intfloat" and isinstance(v, (bool, np.generic)):
            continue
        if k in ("str", "bool") and isinstance(v, (list, dict)):
            continue
        if k == "float" and isinstance(v, float) and v != v and not (math.isfinite(rule["lo"]) or math.isfinite(rule["hi"])):
            continue        # not a number is as good as any when there are no bounds at all
        L.set(rule, v, lambda: fn(v), f"check {k} {rule}")
        if k in ("int", "float") and num(v):
            # without bounds every number is accepted
            L.set({"kind": k, "closed": True, "lo": -INF, "hi": INF}, v, lambda: (V.check_int if k == "int" else V.check_float)("x", v), f"check {k} without bounds")
            # the same for each element of a tuple
            vs = [v] + [r.choice([rule["lo"], rule["hi"]]) for _ in range(r.randint(1, 2))]
            vs = [x for x in vs if num(x) and math.isfinite(x)]
            if len(vs) > 1 and (k == "float" or all(isinstance(x, int) for x in vs)):
                f = V.check_tuple_int if k == "int" else V.check_tuple_float
                ok = all(inside({**rule, "kind": k}, x) for x in vs)
                L.same("tuple", lambda: ([_raises(lambda: f("x", tuple(vs), [bound(rule)] * len(vs)))], ["no" if ok else "ValueError"]))
    return L


def _raises(fn):
    try:
        fn()
        return "no"
    except Exception as e:      # noqa
        return type(e).__name__


def solve_line(tid, r, n):
    from mealpy import PSO, GWO, FloatVar, Multitask, Problem, Termination, Tuner, Optimizer
    L = Line(tid)
    cpu = os.cpu_count()
    W = {"process": {"kind": "int", "closed": True, "lo": 2, "hi": min(61, cpu - 1)}, "thread": {"kind": "int", "closed": True, "lo": 2, "hi": min(32, cpu + 4)}}
    IV = lambda lo, hi, k="int": {"kind": k, "closed": True, "lo": lo, "hi": hi}      # noqa
    TERM = {"max_epoch": IV(1, 10000000), "max_fe": IV(10, 1000000000), "max_time": IV(.1, 1000000, "float"), "max_early_stop": IV(1, 100000)}

    def prob(n):
        def f(x):
            n[0] += 1
            return float(np.sum(np.array(x) ** 2))
        return {"obj_func": f, "bounds": FloatVar(lb=(-3.,) * 2, ub=(3.,) * 2), "minmax": "min", "log_to": None}

    def solve(n, attr=None, problem=None, **k):
        m = GWO.OriginalGWO(epoch=1, pop_size=5)        # one that can run in parallel
        m.solve(prob(n) if problem is None else problem, seed=1, **k)
        return getattr(m, attr) if attr else None
    for _ in range(n):
        # modes and workers
        for v in ("single", "swarm", "thread", "Single", "", "multi", None, 3, ["single"]):
            L.set({"kind": "str", "choices": ["process", "thread", "single", "swarm"]}, v, lambda c: solve(c, "mode", mode=v), "mode", op="solve")
        for mode in ("thread", "process"):
            hi = W[mode]["hi"]
            for v in [0, 1, -1, hi + 1, "4", 2.5 if mode == "thread" else 1.5, 100] + ([2, hi] if mode == "thread" else []):
                L.set(W[mode], v, lambda c: solve(c, "n_workers", mode=mode, n_workers=v), f"{mode} n_workers", op="solve")
        # termination
        for k, rule in TERM.items():
            lo, hi = rule["lo"], rule["hi"]
            for v in [lo, hi, lo - 1 if k != "max_time" else .05, hi + 1, "5", float("nan"), (lo + hi) // 2, -3, [5]]:
                L.set(rule, v, lambda: getattr(Termination(**{k: v}), k), f"Termination({k}")
                if v != hi:
                    L.set(rule, v, lambda c: getattr(_solved(c, prob, {k: v}), k), f"solve(termination={{{k}", op="solve")
        L.same("termination_without_criterion", lambda: ([_raises(lambda: Termination()), _raises(lambda: Termination(termination={}))], ["ValueError"] * 2))
        bad = [0]
        NO = {"kind": "never"}
        for v in (5, "abc", [1], ("max_epoch", 5)):
            L.set(NO, v, lambda c: solve(c, termination=v), "termination", op="solve")
        L.set(NO, {}, lambda c: solve(c, termination={}), "termination", op="solve")
        for v in (5, "abc", [1], FloatVar()):
            L.set(NO, v, lambda c: solve(c, problem=v), "problem", op="solve")
        # starting solutions
        good = [[0.5, 1.5]] * 5
        for v in (good[:4], good + good[:1], [[1.]] * 5, [[1., 2., 3.]] * 5, [1., 2., 3., 4., 5.], "abcde", 5, [None] * 5):
            L.set(NO, v, lambda c: solve(c, starting_solutions=v), "starting_solutions", op="solve")
        for v in (good, tuple(map(tuple, good)), np.array(good), list(map(np.array, good))):
            L.set({"kind": "list"}, list(good), lambda c: solve(c, starting_solutions=v), "starting_solutions", op="solve")
        # experiment utilities
        with contextlib.redirect_stdout(io.StringIO()):
            alg = PSO.OriginalPSO(epoch=1, pop_size=5)
            for v in (5, "PSO", None, PSO.OriginalPSO, {}):
                L.set(NO, v, lambda: Tuner(v, {"epoch": [1]}), "Tuner(algorithm")
            for v in (5, "a", None):
                L.set(NO, v, lambda: Tuner(alg, v), "Tuner(param_grid")
            for v in (0, -1, 100001, "3", None, [2]):
                L.set(IV(1, 100000), v, lambda: Tuner(alg, {"epoch": [1]}).execute(prob(bad), n_trials=v), "Tuner.execute(n_trials")
            for v in (cpu, 200):
                L.set(IV(2, min(61, cpu - 1)), v, lambda: Tuner(alg, {"epoch": [1]}).execute(prob(bad), n_trials=1, n_jobs=v), "Tuner.execute(n_jobs")

            class P(Problem):
                def obj_func(self, x):
                    bad[0] += 1
                    return 0.
            p = P(FloatVar(lb=(-3.,) * 2, ub=(3.,) * 2), "min", log_to=None)
            for v in ([], (), None, 5, alg):
                L.set({"kind": "list"}, v, lambda: (Multitask(algorithms=v, problems=[p]), None)[1], "Multitask(algorithms")
                L.set({"kind": "list"}, v, lambda: (Multitask(algorithms=[alg], problems=v), None)[1], "Multitask(problems")
            d = tempfile.mkdtemp(prefix="vset_")
            try:
                for v in (0, 100001, "3", None):
                    L.set(IV(1, 100000), v, lambda: Multitask([alg], [p]).execute(n_trials=v, save_path=d), "Multitask.execute(n_trials")
                for v in ("xml", "CSV", None, 3):
                    L.set({"kind": "str", "choices": ["csv", "json", "dataframe"]}, v, lambda: Multitask([alg], [p]).execute(n_trials=1, save_path=d, save_as=v), "Multitask.execute(save_as")
                for v in (5, "abc", 3.2):
                    L.set(NO, v, lambda: Multitask([alg], [p], terminations=v), "Multitask(terminations")
                L.same("evaluated_before_refusal", lambda: ([bad[0]], [0]))
            finally:
                shutil.rmtree(d, ignore_errors=True)
        # an optimizer without its two basic settings, and one with a refused parameter dictionary
        m = GWO.OriginalGWO(epoch=7, pop_size=9)
        before = dict(m.get_parameters())
        L.set(NO, 1, lambda: m.set_parameters({"epoch": 3, "no_such": 1}), "set_parameters(no_such")
        L.same("refused_parameters_change_nothing", lambda: (sorted(m.get_parameters().items()) + [m.epoch], sorted(before.items()) + [7]))
    return L


def _solved(c, prob, term):
    from mealpy import PSO
    m = PSO.OriginalPSO(epoch=1, pop_size=5)
    m.solve(prob(c), termination=term, seed=1)
    return m.termination


# ------------------------------------------------------------------------------------------------------------------- registry
def registry_line(tid):
    import mealpy
    L = Line(tid)
    defined, mods = {}, {}
    for m in pkgutil.walk_packages(mealpy.__path__, "mealpy."):
        if "_based." not in m.name or m.ispkg:
            continue
        mod = importlib.import_module(m.name)
        for n, c in vars(mod).items():
            if inspect.isclass(c) and issubclass(c, mealpy.Optimizer) and c.__module__ == m.name:
                defined[n] = c
                mods.setdefault(m.name.split(".")[-1], set()).add(n)

    def quiet(fn):
        with contextlib.redirect_stdout(io.StringIO()) as o:
            x = fn()
        return x, o.getvalue()
    q = lambda c: f"{c.__module__}.{c.__qualname__}"      # noqa
    L.same("all_optimizers", lambda: (sorted(map(q, mealpy.get_all_optimizers(verbose=False).values())), sorted(map(q, defined.values()))))
    L.same("all_optimizers_names", lambda: ([n for n, c in sorted(mealpy.get_all_optimizers(verbose=False).items()) if c.__name__ == n], sorted(defined)))
    L.same("all_optimizers_silent", lambda: ([quiet(lambda: mealpy.get_all_optimizers(verbose=False))[1]], [""]))
    L.same("all_optimizers_verbose", lambda: (_listed(quiet(mealpy.get_all_optimizers)[1]), sorted(defined)))
    for n, c in sorted(defined.items()):
        L.same("by_class", lambda: ([q(mealpy.get_optimizer_by_class(n))], [q(c)]))
    L.same("by_class_unknown", lambda: ([quiet(lambda: mealpy.get_optimizer_by_class("NoSuchOptimizer"))[0], quiet(lambda: mealpy.get_optimizer_by_class("Optimizer"))[0]], [None, None]))
    for m, ns in sorted(mods.items()):
        L.same("by_module", lambda: (sorted(q(c) for c in mealpy.get_optimizer_by_name(m).values()), sorted(q(defined[n]) for n in ns)))
        L.same("module_attribute", lambda: ([getattr(mealpy, m).__name__.split(".")[-1]], [m]))
    L.same("by_name_unknown", lambda: ([not quiet(lambda: mealpy.get_optimizer_by_name("NoSuchModule"))[0], not quiet(lambda: mealpy.get_optimizer_by_name("NoSuchModule", verbose=True))[0]], [True, True]))
    for n in sorted(set(defined) - set(mods)):
        L.same("by_class_name", lambda: ([q(mealpy.get_optimizer_by_name(n))], [q(defined[n])]))        # as the README has it
    for n, c in sorted(defined.items()):
        # an optimizer describes itself: its name, and the parameters of the constructor with their values
        def desc():
            m, k = c(), c(name="my name")
            want = [p for p in inspect.signature(c.__init__).parameters if p not in ("self", "kwargs")]
            return ([str(m), m.get_name(), k.get_name(), *sorted(map(_par(m), m.get_parameters()))],
                    [f"{n}(" + ", ".join(f"{p}={m.get_parameters()[p]}" for p in m.get_parameters()) + ")", n, "my name", *sorted(map(_par(inspect.signature(c.__init__).parameters), set(want) - (set() if n not in ("OriginalSA", "GaussianSA") else {"pop_size"})))])
        L.same("description", desc)
    return L


def _f(v):
    return float(v) if num(v) and typ(v) != "bool" else v


def _par(o):
    if hasattr(o, "get_parameters"):
        return lambda p: f"{p}={_f(o.get_parameters()[p])}"
    return lambda p: f"{p}={_f(o[p].default)}"


def _listed(text):
    return sorted(ln.split(" - ")[0][len("Optimizer: "):] for ln in text.splitlines() if ln.startswith("Optimizer: "))


# ------------------------------------------------------------------------------------------------------------------------ jobs
def job(a):
    k, names, seed, n, path = a
    r = random.Random(f"{SEED}:{seed}:{k}")
    info = {}
    with open(path, "w") as f, open(os.devnull, "w") as dn, contextlib.redirect_stderr(dn):
        todo = names if k == "ctor" else [str(seed)]
        table = json.load(open(os.path.join(HERE, "ranges.json"))) if k == "ctor" else {}
        for nm in todo:
            tid = f"{k}#{nm}"
            try:
                if k == "ctor":
                    L = ctor_line(tid, nm, table[nm], r, n)
                elif k == "validator":
                    L = validator_line(tid, r, n)
                elif k == "registry":
                    L = registry_line(tid)
                else:
                    L = solve_line(tid, r, n)
            except Exception as e:      # noqa
                L = Line(tid)
                L.same("machinery", lambda: (_ for _ in ()).throw(e))
            f.write(json.dumps(L.d, separators=(",", ":")) + "\n")
            info[tid] = L.txt
    return info


MC = {"quick": (2, 2), "thorough": (3, 2)}
INV = "INVARIANTS ReadyMeansValid RefusedMeansInvalid OnlyValidStored Laws\nPROPERTIES Ends\n"


def part(rep, prop, tier):
    mr, nr = MC[tier]
    _, _, st = tlc.run("SettingsMC", f"SPECIFICATION Spec\nCONSTANTS MaxRank={mr} NRules={nr}\n" + INV, workers="8", xmx="6g", timeout=800)
    rep.add({"states": st["distinct"], "transitions": st["generated"], "design_states": st["distinct"]})
    d = tempfile.mkdtemp(prefix="vset_")
    try:
        if prop == "S26":
            jobs = [("registry", None, 0, 0, os.path.join(d, "registry.nd"))]
        else:
            table = json.load(open(os.path.join(HERE, "ranges.json")))
            names = [n for n in sorted(rec.classes()) if n in table]
            deep = {"quick": 1, "thorough": 1}[tier]
            reps = {"quick": 1, "thorough": 8}[tier]
            jobs = [("ctor", names[i::16], f"{i}.{j}", deep, os.path.join(d, f"ctor{i}.{j}.nd")) for i in range(16) for j in range(reps)]
            jobs += [("validator", None, j, {"quick": 400, "thorough": 4000}[tier], os.path.join(d, f"val{j}.nd")) for j in range(8)]
            jobs += [("solve", None, j, 1, os.path.join(d, f"solve{j}.nd")) for j in range({"quick": 1, "thorough": 4}[tier])]
        info = {}
        for x in run_jobs(job, jobs, chunksize=1):
            info.update(x)
        import solvecheck
        sh = solvecheck.shards([j[4] for j in jobs], d)
        can = []
        with open(sh[0]) as f:
            base = [json.loads(l) for l in f]
        for field in (["got", "kept"] if prop == "S14" else ["x"]):
            ln = next((json.loads(json.dumps(l)) for l in base if any(c["op"] == ("same" if field == "x" else "set") and (field == "x" or c["got"] == "ok") for c in l["calls"])), None)
            if ln is None:
                continue
            c = next(c for c in ln["calls"] if c["op"] == ("same" if field == "x" else "set") and (field == "x" or c["got"] == "ok"))
            c[field] = {"got": "ValueError", "kept": c["kept"] + 1, "x": c["x"] + ["?"]}[field]
            ln["id"] = "canary#" + field
            can.append(ln)
        with open(sh[0], "a") as f:
            for c in can:
                f.write(json.dumps(c, separators=(",", ":")) + "\n")
        outs, st = tlc.judge_many("SettingsTrace", "SPECIFICATION Spec\n", sh)
        fails = [x for o in outs for x in o["fails"]]
        caught = {x["id"] for x in fails if x["id"].startswith("canary#")}
        if len(caught) != len(can) and len(caught) == len({x["id"] for x in fails}):
            raise SystemExit("machinery failure: altered recordings were accepted")
        for x in fails:
            if x["id"].startswith("canary#"):
                continue
            txt = info[x["id"]][x["at"] - 1] if x["at"] else "?"
            rep.violation((x["id"], x["clause"]), f"{x['clause']}: {txt}", {"id": x["id"], "clause": x["clause"], "call": x["at"], "what": txt})
        rep.add({"states": sum(s["distinct"] for s in st), "transitions": sum(s["generated"] for s in st), "traces_validated_against_impl": len(info),
                 "calls_judged": sum(o.get("events", 0) for o in outs), "altered_recordings_rejected": len(caught)})
        rep.samples += [f"{i}: {'; '.join(v[:3])}"[:300] for i, v in list(info.items())[:: max(1, len(info) // 8)]][:8]
    finally:
        shutil.rmtree(d, ignore_errors=True)
