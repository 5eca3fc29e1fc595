"""Optimizers that record how Tuner and Multitask use them (module level, so that worker processes can load them)."""
import fcntl
import json

import numpy as np

import rec  # noqa  (puts the repository on the path)
import mealpy
from mealpy import Optimizer
from mealpy.utils.agent import Agent
from mealpy.utils.problem import Problem
from mealpy.utils.target import Target
from mealpy.utils.termination import Termination


def num(v):
    return repr(float(v)) if isinstance(v, (int, float, np.number)) and not isinstance(v, (bool, np.bool_)) else repr(v)


def term_id(t):
    if t is None:
        return "none"
    if isinstance(t, Termination):
        return f"T{t.max_fe}"
    return "D" + json.dumps(t, sort_keys=True)


def prob_id(p):
    return str(p.get_name()) if isinstance(p, Problem) else str(p.get("name"))


def note(path, ent, script):
    """appends one call to the log, returns the scripted losses of this call"""
    with open(path, "a+") as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        f.seek(0)
        k = sum(1 for _ in f)
        loss = script[k % len(script)] if script else None
        if loss is not None:
            ent = dict(ent, loss=loss, fit=loss[-1])
        f.write(json.dumps(ent) + "\n")
    return loss


def entry(o, problem, mode, n_workers, termination):
    return {"e": "solve", "a": getattr(o, "tag", 0), "p": {k: num(getattr(o, k, None)) for k in o.get_parameters()}, "q": {k: num(v) for k, v in o.get_parameters().items()},
            "m": str(mode), "w": str(n_workers), "t": term_id(termination), "b": prob_id(problem)}


class Stub(Optimizer):
    """an optimizer whose results are scripted"""

    def __init__(self, epoch=5, pop_size=10, a=0, b=0, c=0, log=None, script=None, tag=0, **kwargs):
        super().__init__(**kwargs)
        self.epoch, self.pop_size, self.a, self.b, self.c = epoch, pop_size, a, b, c
        self.set_parameters(["epoch", "pop_size", "a", "b", "c"])
        self.log, self.script, self.tag = log, script, tag

    def solve(self, problem=None, mode="single", n_workers=None, termination=None, starting_solutions=None, seed=None):
        loss = note(self.log, entry(self, problem, mode, n_workers, termination), self.script)
        self.check_problem(problem, seed)
        self.history.list_global_best_fit = [float(v) for v in loss]
        self.g_best = Agent(solution=np.zeros(2), target=Target([float(loss[-1])], [1.]))
        return self.g_best


class _Rec:
    def solve(self, problem=None, mode="single", n_workers=None, termination=None, starting_solutions=None, seed=None):
        ent = entry(self, problem, mode, n_workers, termination)
        best = super().solve(problem, mode=mode, n_workers=n_workers, termination=termination, starting_solutions=starting_solutions, seed=seed)
        ent.update(loss=[float(v) for v in self.history.list_global_best_fit], fit=float(best.target.fitness))
        note(self.log, ent, None)
        return best


REAL = {}
for _c in ("OriginalPSO", "BaseGA", "OriginalDE", "OriginalWOA", "OriginalTLO", "OriginalHC", "OriginalBBO", "OriginalGWO", "OriginalFPA", "OriginalJA"):
    if _c in rec.classes():
        _n = "Rec_" + _c
        globals()[_n] = type(_n, (_Rec, rec.classes()[_c]), {"__module__": __name__})
        REAL[_c] = globals()[_n]


class IntObj:
    """picklable objective with whole values"""

    def __init__(self, k=60):
        self.k = k

    def __call__(self, x):
        return float(self.k * np.round(np.sum(np.asarray(x, dtype=float) ** 2)))
