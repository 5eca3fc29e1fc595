"""Solve.tla itself: exhaustive model checking (SolveMC) and replay of its behaviours on the real Optimizer (SolveGen)."""
import json
import random
from concurrent.futures import ThreadPoolExecutor

import replay
import tlc
from common import SEED
from pool import run_jobs

INV = "INVARIANTS BestSoFar Returned Monotone Bracket Complete Bounded StopsExactly EarlyStopNotMissed SortedPop\n"
# every constant that is not named is at its smallest
BASE = dict(NFit=2, Pops="{2}", MaxE=2, MaxX=0, MaxDt=0, MaxSolves=1, MGs="{0}", FEs="{0}", TBs="{0}", ESs="{0}", EPs="{0}",
            Sorts="{FALSE}", MMs='{"min","max"}', Mids="FALSE")
CONFIGS = {
    "quick": {
        "values": dict(NFit=3, MaxE=2, Sorts="{FALSE,TRUE}", Mids="TRUE", MMs='{"max"}'),
        "stop": dict(MaxE=3, MGs="{0,1,2,4}", FEs="{0,3,5}", ESs="{0,1,2}", MaxX=1),
        "time": dict(MaxE=2, TBs="{0,1,2}", MaxDt=2, ESs="{0,1}"),
        "tolerance": dict(NFit=3, MaxE=4, Pops="{1}", ESs="{0,1,2,3}", EPs="{0,1}"),
        "reuse": dict(NFit=2, MaxE=1, MaxSolves=3, ESs="{0,1}", Mids="TRUE"),
    },
    "thorough": {
        "values": dict(NFit=3, Pops="{2,3}", MaxE=2, Sorts="{FALSE,TRUE}", Mids="TRUE"),
        "values3": dict(NFit=3, Pops="{1,2}", MaxE=3, Sorts="{FALSE,TRUE}", Mids="TRUE", MMs='{"max"}'),
        "stop": dict(NFit=2, MaxE=4, MGs="{0,1,2,5}", FEs="{0,3,5,9}", ESs="{0,1,2,3}", MaxX=1),
        "time": dict(MaxE=3, TBs="{0,1,2,3}", MaxDt=2, ESs="{0,2}", MGs="{0,2}"),
        "tolerance": dict(NFit=4, MaxE=5, Pops="{1}", ESs="{1,2,3}", EPs="{0,1,2}"),
        "reuse": dict(NFit=2, MaxE=2, MaxSolves=2, ESs="{0,1}", FEs="{0,3}", Mids="TRUE"),
    },
}


def model(tier):
    def one(kv):
        name, c = kv
        k = dict(BASE, **c)
        live = tier == "thorough" and name in ("stop", "reuse")
        cfg = "SPECIFICATION Spec\nCONSTANTS " + " ".join(f"{a}={b}" for a, b in k.items()) + "\n" + INV + \
              ("PROPERTIES Terminates\n" if live else "")
        rc, out, st = tlc.run("SolveMC", cfg, workers="2", timeout=800, xmx="6g")
        return name, st
    with ThreadPoolExecutor(4) as ex:
        return dict(ex.map(one, CONFIGS[tier].items()))


FOCUS = ["all", "es", "fe", "tb", "mg", "all", "all", "all"]


def replays(tier, prop):
    per = {"quick": 160, "thorough": 2500}[tier]
    salt = sum(map(ord, prop)) * 1000 + SEED * 100

    def gen(i):
        return replay.behaviours(per, salt + i, focus=FOCUS[i], maxe=6 + (i % 3), solves=2 + (i % 2), maxpop=3 + i % 3, nfit=3 + i % 3, timeout=800)
    with ThreadPoolExecutor(8) as ex:
        got = list(ex.map(gen, range(8)))
    scripts = [s for g, _ in got for s in g]
    jobs = [(scripts[i:i + 20], f"{SEED}:{prop}:{i}") for i in range(0, len(scripts), 20)]
    return scripts, sum(n for _, n in got), run_jobs(replay.job, jobs, chunksize=1)


def spoil(script, r):
    """one expectation of the specification is changed: the replay has to notice"""
    s = json.loads(json.dumps(script))
    st = [x for x in s if x["a"] == "done"]
    x = r.choice(st)["s"]
    k = r.choice(["nfe", "hgb", "hcw"])
    if k == "nfe":
        x["nfe"] += 1
    else:
        x[k] = x[k][:-1]
    return s


def part(rep, prop, tier):
    mc = model(tier)
    rep.add({"states": sum(s["distinct"] for s in mc.values()), "transitions": sum(s["generated"] for s in mc.values()), "traces_validated_against_impl": 0,
             "design_states": sum(s["distinct"] for s in mc.values())})
    scripts, gen, res = replays(tier, prop)
    if len(scripts) < 50:
        raise SystemExit(f"machinery failure: only {len(scripts)} behaviours generated")
    r = random.Random(SEED)
    bad = [spoil(s, r) for s in scripts[:6]]
    caught = run_jobs(replay.job, [([b], "spoil:single") for b in bad], chunksize=1)
    n = sum(1 for c in caught if c["fails"])
    if n < len(bad) and not any(x["fails"] for x in res):
        raise SystemExit(f"machinery failure: {len(bad) - n} altered behaviours were accepted")
    rep.add({"transitions": gen, "states": gen, "traces_validated_against_impl": sum(x["n"] for x in res), "behaviours_replayed": sum(x["n"] for x in res),
             "replayed_steps": sum(x["steps"] for x in res), "altered_behaviours_rejected": n})
    seen = set()
    for x in res:
        for f in x["fails"]:
            if f["prop"] not in (prop, "*"):
                continue
            k = ("Optimizer.solve", f["clause"])
            if k in seen:
                continue
            seen.add(k)
            rep.violation(k, f"replay of a behaviour of Solve.tla in {f['mode']} mode: {f['clause']}: {f['text']}", {"script": f["script"], "mode": f["mode"], "what": f["text"]})
    rep.samples += [json.dumps(s)[:600] for s in scripts[:2]]
