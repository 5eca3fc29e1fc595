"""S27, S28: what is recorded, logged and drawn of a run. Progress.tla is model checked (ProgressMC); recorded runs of the real
optimizers under a scripted clock, their log files and their charts are judged by ProgressTrace.tla."""
import contextlib
import json
import logging
import math
import os
import random
import re
import shutil
import sys
import tempfile
import time

import numpy as np

import corpus
import rec
import tlc
from common import SEED
from pool import run_jobs
from productcheck import mk
from replay import Clock

TICK = 0.125
BAD = -1999999999


class Ids:
    """numbers for values: equal numbers for equal values only"""

    def __init__(self):
        self.d = {}

    def __call__(self, v):
        try:
            v = float(v)
        except (TypeError, ValueError):
            return BAD
        return self.d.setdefault(repr(v), len(self.d) + 1)


@contextlib.contextmanager
def scripted_clock(fname):
    """time passes only in the objective function"""
    clock, swapped = Clock(time), []
    fns = (time.perf_counter, time.time, time.monotonic, time.process_time, time.perf_counter_ns)
    for nm, mod in list(sys.modules.items()):
        if nm == "mealpy" or nm.startswith("mealpy."):
            for k, v in list(vars(mod).items()):
                if v is time or any(v is f for f in fns):
                    swapped.append((mod, k, v))
                    setattr(mod, k, clock if v is time else clock.perf_counter)
    orig = rec.OBJ[fname]

    def slow(x):
        clock.now += TICK
        return orig(x)
    rec.OBJ[fname] = slow
    try:
        yield clock
    finally:
        rec.OBJ[fname] = orig
        for mod, k, v in swapped:
            setattr(mod, k, v)


def whole(v, unit):
    """v as a number of units, if it is one"""
    try:
        n = round(float(v) / unit)
        return n if abs(float(v) - n * unit) < 1e-6 else BAD
    except (TypeError, ValueError, OverflowError):
        return BAD


def ticks(v, s):
    v = float(v) * s
    return BAD if not math.isfinite(v) or abs(v) > 1.9e9 else round(v)


@contextlib.contextmanager
def captured(path):
    """what goes to the standard streams"""
    sys.stdout.flush(); sys.stderr.flush()
    with open(path, "wb") as f:
        old = os.dup(1), os.dup(2)
        os.dup2(f.fileno(), 1); os.dup2(f.fileno(), 2)
        try:
            yield
        finally:
            sys.stdout.flush(); sys.stderr.flush()
            for i, o in zip((1, 2), old):
                os.dup2(o, i); os.close(o)


LINE = re.compile(r"Epoch: *(\d+).*?Current best: *([^,\s]+).*?Global best: *([^,\s]+).*?Runtime: *([-+0-9.einfa]+)", re.I)


def log_lines(text, ids):
    out = []
    for ln in text.splitlines():
        m = LINE.search(ln)
        if m:
            out.append({"epoch": int(m[1]), "cur": ids(m[2]), "glob": ids(m[3]), "time": whole(m[4], TICK)})
    return out


def trace(tid, raw, ids, tick=True):
    """the recorded run as a trace; None if there is nothing to judge"""
    ev, h, best = raw["events"], raw["opt"].history, min if raw["cfg"].get("minmax", "min") == "min" else max
    epochs = []
    for e in ev[1:]:
        P = np.array([a[3] for a in e["pop"]], dtype=float)
        lo, P = P.min(axis=0), P - P.min(axis=0)
        top = float(P.max())
        exact = bool(np.all(P == np.round(P))) and top < 1e5
        s = 100000. / max(top, 1.) if not exact else 1.
        if exact:
            s = float(10 ** int(math.log10(100000. / max(top, 1.)))) if top <= 100000 else 1.
        elif top > 0:
            s = 100000. / top
        k = len(epochs)
        d = h.list_diversity[k] if k < len(h.list_diversity) else math.nan
        epochs.append({"pop": [[int(v) for v in row] for row in np.round(P * s).astype(int)], "exact": exact, "div": ticks(d, s),
                       "c": ids(best(a[2] for a in e["pop"])), "g": ids(e["gb"][2]), "dt": len(e["evals"]) if tick else 0})
    dv = [float(v) for v in h.list_diversity]
    m = max([v for v in dv if math.isfinite(v)], default=0.)
    s2 = 100000. / m if m > 0 else 1.
    fin = all(math.isfinite(float(v)) for l in (dv, h.list_exploration, h.list_exploitation, h.list_epoch_time) for v in l)
    end = {"epoch": int(h.epoch), "div": [ticks(v, s2) for v in dv], "cur": [ids(v) for v in h.list_current_best_fit], "glob": [ids(v) for v in h.list_global_best_fit],
           "time": [whole(v, TICK) for v in h.list_epoch_time] if tick else [0 if float(v) >= 0 else BAD for v in h.list_epoch_time],
           "explore": [ticks(v, 100.) for v in h.list_exploration], "exploit": [ticks(v, 100.) for v in h.list_exploitation], "finite": fin}
    return {"id": tid, "epochs": epochs, "end": end, "log": {"judged": False, "wanted": False, "lines": [], "extra": 0, "named": True}, "h": {}, "charts": []}


def lists(h, ids):
    q = lambda l: [ids(v) for v in l]
    pops = [[q(a.solution) for a in p] for p in h.list_population]
    return {"glob": q(h.list_global_best_fit), "cur": q(h.list_current_best_fit), "time": q(h.list_epoch_time), "div": q(h.list_diversity), "explore": q(h.list_exploration),
            "exploit": q(h.list_exploitation), "gobj": [q(a.target.objectives) for a in h.list_global_best], "cobj": [q(a.target.objectives) for a in h.list_current_best],
            "pops": pops, "dims": len(pops[0][0]) if pops and pops[0] else 0}


# ---------------------------------------------------------------------------------------------------------------------- charts
METHOD = {"global_best": "save_global_best_fitness_chart", "local_best": "save_local_best_fitness_chart", "runtime": "save_runtime_chart", "explore": "save_exploration_exploitation_chart",
          "diversity": "save_diversity_chart", "global_objectives": "save_global_objectives_chart", "local_objectives": "save_local_objectives_chart", "trajectory": "save_trajectory_chart"}


def chart(h, kind, r, ids, d, nobj):
    from matplotlib import pyplot as plt
    from matplotlib.figure import Figure
    real = r.random() < .12
    kw, want, text = {}, [], {}
    if r.random() < .6:
        kw["title"] = r.choice(["A title", "Run 2: best", "x_y"])
    base = r.choice(["c", "sub/dir/chart_1", "some name", "a-b.c", "deep/er/x"]) + str(r.randrange(1000))
    exts = [".png", ".pdf"]
    kw["filename"] = base
    if kind in ("global_best", "local_best", "runtime"):
        for k, v in (("legend", "my line"), ("x_label", "steps"), ("y_label", "value"), ("color", "r"), ("linestyle", "--")):
            if r.random() < .4:
                kw[k] = v
        if r.random() < .4:
            kw["exts"] = r.choice([(".png",), (".svg", ".png"), [".pdf"]])
            exts = list(kw["exts"])
    if kind.endswith("objectives"):
        if r.random() < .4:
            kw["x_label"] = "steps"
        if r.random() < .5:
            kw["y_labels"] = [f"objective no. {j}" for j in range(nobj)]
    if kind == "diversity" and r.random() < .6:
        kw["algorithm_name"] = "An algorithm"
    if kind == "explore" and r.random() < .3:
        kw["list_colors"] = ("red", "green")
    agents, coords = [1, 2, 3, 4, 5], [1, 2]
    if kind == "trajectory":
        n = len(h.list_population[0]) if h.list_population else 10
        dm = len(h.list_population[0][0].solution) if h.list_population else 3
        if r.random() < .9:
            agents = r.choice([[1], [n], [1, n], r.sample(range(1, n + 1), min(n, 3)), [2, 2, 1], [0, 1], [n + 1], [-1, 2], list(range(1, 11)), list(range(1, 12)), [], (3, 1)])
            kw["list_agent_idx"] = agents
        if r.random() < .9:
            coords = r.choice([[1], [dm], [1, dm], [dm, 1], (min(2, dm),), [1, 2, 3], [0], [dm + 1], [1, dm + 1], [-1], [], [1, 1]])
            kw["selected_dimensions"] = coords
    if r.random() < .3:
        kw["verbose"] = False
    seen, lines = [], None

    def look(fig):
        flat = kind != "trajectory" or len(set(coords)) == 1
        out, tx = [], {"title": None, "x": [], "y": [], "labels": [], "color": [], "style": []}
        for ax in fig.axes:
            tx["x"].append(ax.get_xlabel()); tx["y"].append(ax.get_ylabel())
            tx["title"] = ax.get_title() or tx["title"]
            lg = ax.get_legend()
            tx["labels"] += [t.get_text() for t in lg.get_texts()] if lg else []
            for l in ax.get_lines():
                out.append({"x": [whole(v, 1.) if flat else ids(v) for v in l.get_xdata()], "y": [ids(v) for v in l.get_ydata()]})
                tx["color"].append(l.get_color()); tx["style"].append(l.get_linestyle())
        if fig.get_suptitle():
            tx["title"] = fig.get_suptitle()
        return out, tx
    orig = Figure.savefig

    def savefig(self, fname, *a, **k):
        nonlocal lines
        got = look(self)
        if lines is None:
            lines = got
        elif lines != got:
            lines = ([{"x": [BAD], "y": [BAD]}], got[1])
        seen.append(str(fname))
        if real:
            return orig(self, fname, *a, **{**k, "dpi": 30})
    user = r.random() < .4
    plt.close("all")
    mine = None
    if user:
        mine = plt.figure()
        plt.plot([1, 2], [3, 4])
    before = json.dumps(lists(h, ids))
    figs = list(plt.get_fignums())
    Figure.savefig = savefig
    cwd = os.getcwd()
    os.chdir(d)
    try:
        got = "ok"
        try:
            getattr(h, METHOD[kind])(**kw)
        except Exception as e:      # noqa
            got = type(e).__name__
        files = [(f if not real or os.path.exists(f) and os.path.getsize(f) > 0 else "not there: " + f) for f in seen]
    finally:
        os.chdir(cwd)
        Figure.savefig = orig
    left = list(plt.get_fignums())
    same_figs = left == figs and (mine is None or len(mine.axes) == 1 and len(mine.axes[0].get_lines()) == 1)
    plt.close("all")
    lines = lines or ([], {"title": "", "x": [], "y": [], "labels": [], "color": [], "style": []})
    tx = lines[1]
    if got == "ok":
        for k, key, w in (("title", "title", kw.get("title")), ("x_label", "x", None), ("y_label", "y", None)):
            if k in kw:
                want.append(f"{k}={kw[k]}")
                g = tx["title"] if k == "title" else tx[key][-1] if tx[key] else None
                text[k] = f"{k}={g}"
        if "y_labels" in kw:
            want.append("y_labels=" + "|".join(kw["y_labels"])); text["y_labels"] = "y_labels=" + "|".join(tx["y"])
        lab = [kw["legend"]] if "legend" in kw else [kw["algorithm_name"]] if "algorithm_name" in kw else [f"Agent {a}" for a in sorted(set(agents))] if kind == "trajectory" \
            else ["Exploration %", "Exploitation %"] if kind == "explore" else None
        if lab is not None:
            want.append("labels=" + "|".join(lab)); text["labels"] = "labels=" + "|".join(tx["labels"])
        if "color" in kw:
            want.append("color=" + kw["color"]); text["color"] = "color=" + str(tx["color"][0] if tx["color"] else "")
        if "linestyle" in kw:
            want.append("style=" + kw["linestyle"]); text["style"] = "style=" + str(tx["style"][0] if tx["style"] else "")
    return {"kind": kind, "agents": list(agents), "coords": list(coords), "got": got, "lines": lines[0], "want": sorted(want), "text": sorted(text.values()),
            "files": files if got == "ok" else seen, "named": [base + x for x in exts], "kept": json.dumps(lists(h, ids)) == before, "figures": same_figs}, f"{METHOD[kind]}({kw}){' beside a figure of the user' if user else ''}"


# ------------------------------------------------------------------------------------------------------------------------ jobs
def stat_job(a):
    cls, tier, d = a
    r = random.Random(f"{SEED}:S27:{cls}")
    out, res = [], []
    exact = ["perm6", "str3", "tbin6", "int4", "bin8", "bool5", "mix"]
    for n in range(4 if tier == "quick" else 16):
        shape = [r.choice(exact), r.choice(["f5", "f3", "fnarrow", "fbig", "f17", "f4n"]), r.choice(exact + ["f2", "f3"]), r.choice(["f1", "int1", "mix2", "fzero"])][n % 4]
        obj = r.choice(corpus.SINGLE + corpus.TIES + (["multi3"] if n % 4 == 2 else []))
        k = {"weights": r.choice(corpus.WEIGHTS3)} if obj == "multi3" else {}
        c = mk(cls, r, shape, obj, r.choice(["min", "max"]), pop=r.choice([10, 13, 13, 17]), vi=r.randrange(8), epoch=r.choice([1, 3, 4, 5, 8]), mode=r.choice(["single", "single", "swarm"]), **k)
        with scripted_clock(obj):
            raw = rec.run(c, timeout=40)
        tid = f"{cls}#{n}"
        res.append({"id": tid, "cfg": c, "what": [], "status": raw["status"], "err": raw["err"]})
        if raw["status"] == "ok":
            out.append(trace(tid, raw, Ids()))
    return dump(cls, d, out), res


def report_job(a):
    cls, tier, d = a
    r = random.Random(f"{SEED}:S28:{cls}")
    out, res = [], []
    tmp = tempfile.mkdtemp(prefix="vlog_")
    cwd = os.getcwd()
    os.chdir(tmp)
    try:
        plan = ["file", "console", "file", None, "file", "default"] + (["file", None, "console"] * 3 if tier != "quick" else [])
        r.shuffle(plan)
        files = []
        for n, how in enumerate(plan):
            obj = r.choice(corpus.SINGLE + ["plateau", "multi3", "neg", "tiny", "huge"])
            k = {"weights": r.choice(corpus.WEIGHTS3)} if obj == "multi3" else {}
            c = mk(cls, r, r.choice(["f3", "f5", "f2", "int4", "perm6"]), obj, r.choice(["min", "max"]), pop=r.choice([10, 13]), vi=r.randrange(6), epoch=r.choice([1, 2, 4, 6]),
                   mode=r.choice(["single", "swarm"]), save_population=r.random() < .75, pname=r.choice(["P", "my problem", "Problem_2"]), log_to={"default": "file"}.get(how, how), **k)
            if how == "file":
                c["log_file"] = os.path.join(tmp, f"log{n}.txt")
            path = c.get("log_file") or (os.path.join(tmp, "history.txt") if how == "default" else None)
            cap = os.path.join(tmp, f"streams{n}")
            ids = Ids()
            logging.disable(logging.NOTSET)
            try:
                with scripted_clock(obj), captured(cap):
                    raw = rec.run(c, timeout=40)
            finally:
                logging.disable(logging.CRITICAL)
            read = lambda p: open(p, errors="replace").read() if p and os.path.exists(p) else ""
            tid = f"{cls}#{n}"
            res.append({"id": tid, "cfg": c, "what": [], "status": raw["status"], "err": raw["err"]})
            streams = read(cap)
            if raw["status"] == "ok":
                t = trace(tid, raw, ids)
                text = read(path) if path else streams if how == "console" else ""
                other = ("" if how == "console" else streams) + "".join(read(p) for p in files if p != path)
                lines = log_lines(text, ids)
                t["log"] = {"judged": True, "wanted": how is not None, "lines": lines, "extra": len(log_lines(other, ids)),
                            "named": all(c["pname"] in ln for ln in text.splitlines() if LINE.search(ln))}
                t["h"] = lists(raw["opt"].history, ids)
                nobj = 3 if obj == "multi3" else 1
                for _ in range(2 if tier == "quick" else 6):
                    ch, txt = chart(raw["opt"].history, r.choice(sorted(METHOD) + ["trajectory"] * 4), r, ids, tmp, nobj)
                    t["charts"].append(ch)
                    res[-1]["what"].append(txt)
                out.append(t)
            for p in os.listdir(tmp):        # nothing but what is expected is left by a run
                if p == "history.txt" or p.startswith("log"):
                    os.unlink(os.path.join(tmp, p))
            if path:
                files.append(path)
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)
    return dump(cls, d, out), res


def dump(cls, d, out):
    path = os.path.join(d, cls + ".nd")
    with open(path, "w") as f:
        for t in out:
            f.write(json.dumps(t, separators=(",", ":")) + "\n")
    return path


MC = {"quick": [(2, 2, 1, 2), (3, 1, 2, 2)], "thorough": [(2, 2, 1, 2), (3, 1, 2, 2), (4, 1, 2, 2), (2, 2, 2, 1), (3, 2, 2, 1), (3, 1, 1, 3)]}
INV = "INVARIANTS Lengths LogTrue TimesAddUp ZeroIffAlike MovingChangesNothing OrderChangesNothing NearestPoint HalfRange SharesBounded SomeFullShare SameOrder\n"


def altered(t):
    """recordings that must be rejected"""
    out = []
    for field in ("div", "explore", "time", "log", "chart"):
        q = json.loads(json.dumps(t))
        if field == "div":
            q["epochs"][0]["div"] += 9
        elif field in ("explore", "time"):
            q["end"][field][-1] += 7
        elif field == "log":
            if not q["log"]["lines"]:
                continue
            q["log"]["lines"][-1]["cur"] += 1
        else:
            c = next((c for c in q["charts"] if c["lines"]), None)
            if c is None:
                continue
            c["lines"][0]["y"][-1] += 1
        q["id"] = "canary#" + field
        out.append(q)
    return out


def part(rep, prop, tier, only=None):
    runs = tlc.run_many([dict(module="ProgressMC", cfg="SPECIFICATION Spec\nCONSTANTS MaxAgents=%d MaxDims=%d MaxVal=%d MaxEpochs=%d\n" % m + INV, workers="2", xmx="4g", timeout=800) for m in MC[tier]], par=4)
    for _, _, st in runs:
        rep.add({"states": st["distinct"], "transitions": st["generated"], "design_states": st["distinct"]})
    d = tempfile.mkdtemp(prefix="vprog_")
    try:
        names = sorted(rec.classes())
        if prop == "S28" and tier == "quick":
            names = [n for i, n in enumerate(names) if (i + SEED) % 4 == 0]
        if only:
            names = [n for n in sorted(rec.classes()) if n in only]
        got = run_jobs(stat_job if prop == "S27" else report_job, [(n, tier, d) for n in names], chunksize=2)
        info = {x["id"]: x for _, l in got for x in l}
        import solvecheck
        sh = solvecheck.shards([p for p, _ in got], d)
        with open(sh[0]) as f:
            base = [json.loads(l) for l in f]
        t = max(base, key=lambda t: (any(c["lines"] for c in t["charts"]) and bool(t["log"]["lines"]), len(t["epochs"])))
        can = altered(t)
        with open(sh[0], "a") as f:
            for c in can:
                f.write(json.dumps(c, separators=(",", ":")) + "\n")
        outs, st = tlc.judge_many("ProgressTrace", "SPECIFICATION Spec\n", sh)
        fails = [x for o in outs for x in o["fails"]]
        caught = {x["id"] for x in fails if x["id"].startswith("canary#")}
        if len(caught) != len(can) and len(caught) == len({x["id"] for x in fails}):
            raise SystemExit("machinery failure: altered recordings were accepted")
        for x in fails:
            if x["id"].startswith("canary#"):
                continue
            mine = "S28" if x["clause"].startswith("log_") or "chart" in x["clause"] or x["clause"] == "other_figures" else "S27"
            if mine != prop and x["clause"] != "not_evaluable":
                continue
            q = info[x["id"]]
            what = q["what"][x["at"] - 1] if x["at"] and mine == "S28" and x["at"] <= len(q["what"]) else f"epoch {x['at']}" if x["at"] else "at the end"
            rep.violation((x["id"].split("#")[0], x["clause"]), f"{x['id']}: {x['clause']} ({what}; {json.dumps(q['cfg'])})", {"cfg": q["cfg"], "clause": x["clause"], "what": what})
        bad = [i for i in info.values() if i["status"] != "ok"]
        rep.samples += [f"not judged: {i['id']} {i['status']} {i['err']}" for i in bad][:4]
        rep.add({"states": sum(s["distinct"] for s in st), "transitions": sum(s["generated"] for s in st), "traces_validated_against_impl": len(info) - len(bad), "runs_not_judged": len(bad),
                 "records_judged": sum(o.get("events", 0) for o in outs), "charts": sum(len(i["what"]) for i in info.values()), "altered_recordings_rejected": len(caught), "optimizers": len(names)})
        rep.samples += [f"{i['id']}: {i['cfg']['shape']} {i['cfg']['obj']} {i['what'][:1]}"[:300] for i in list(info.values())[:: max(1, len(info) // 8)]][:8]
    finally:
        shutil.rmtree(d, ignore_errors=True)
