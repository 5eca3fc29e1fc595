"""Offline tool: keeps the argument sets of variants_raw.json that complete on several problems (-> variants.json).
Sets at the very ends of documented ranges that the algorithms themselves cannot run with (e.g. fewer than 3 agents per
group) are outside the properties' scope."""
import json, signal, sys
import rec
from pool import run_jobs
from shapes import SHAPES
RAW = json.load(open("variants_raw.json"))

MINEP = {"OriginalGSKA": 12, "HI_WOA": 12}


def job(name):
    out = {}
    for pop, vs in RAW[name].items():
        keep = []
        for i, p in enumerate(vs):
            ok = p.get('Nc', 0) <= 20 and p.get('max_sparks', 0) <= 60   # the others only take long
            if not ok:
                continue
            for sh in ("f5", "f3", "f17", "mix"):
                for s in (1, 2, 3):
                    for mm in ("min", "max"):
                        q = dict(p)
                        if "epoch" in q:
                            q["epoch"] = 12
                        r = rec.run(dict(cls=name, params=q, bounds=SHAPES[sh], obj=("linear", "rastrigin", "shift")[s - 1], minmax=mm, seed=s, mode="single"), timeout=6)
                        if r["status"] != "ok":
                            ok = False
                            sys.stderr.write(f"{name} {pop} {i} {sh} {r['err']} {p}\n")
                            break
                    if not ok: break
                if not ok: break
            if ok:
                keep.append(p)
            elif i == 0:
                sys.stderr.write(f"BASE FAILS {name} {pop}\n")
        out[pop] = keep
    return name, out


if __name__ == "__main__":
    res = dict(run_jobs(job, sorted(RAW)))
    json.dump(res, open("variants.json", "w"), indent=0, sort_keys=True)
    print(sum(len(v) for r in res.values() for v in r.values()))
