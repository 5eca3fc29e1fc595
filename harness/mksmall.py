"""Offline tool (its output harness/small.json is committed): argument sets for the smallest populations (5 to 9 agents) that each
constructor accepts; parameters that the constructor bounds by the population size are chosen anew for each population.

An argument set that a run does not complete with is listed on stderr and left out (see DESIGN.md for those that are)."""
import json
import sys
import corpus
import mkvariants as M
import rec
from pool import run_jobs
from shapes import SHAPES


def job(name):
    M.patch() if not getattr(M, "_patched", 0) else None
    M._patched = 1
    cls, out = rec.classes()[name], []
    if "pop_size" not in M.kwargs_of(cls):
        return name, []
    for pop in (5, 6, 7, 8, 9):
        for p in (M.make(cls, pop, f"small{name}{pop}", n=1) or []):
            if p.get("pop_size") != pop or p.get("Nc", 0) > 20 or p.get("max_sparks", 0) > 60:
                continue
            bad = None
            for n, (sh, ob, mm, mode) in enumerate((("f5", "shift", "min", "single"), ("f3", "linear", "max", "swarm"), ("mix", "rastrigin", "max", "single"), ("f5", "const", "min", "single"))):
                c = corpus.with_params(corpus.cfg(name, "small", sh, ob, mm, seed=n, mode=mode), p, 12)
                r = rec.run(c, timeout=10)
                if r["status"] != "ok":
                    bad = r["err"] or r["status"]
                    break
            if bad:
                print(name, p, bad[:200], file=sys.stderr)
            else:
                out.append(p)
    return name, out


if __name__ == "__main__":
    res = dict(run_jobs(job, sorted(rec.classes()), chunksize=1))
    json.dump(res, open("small.json", "w"), indent=0, sort_keys=True)
    print(sum(map(len, res.values())), [k for k, v in res.items() if not v])
