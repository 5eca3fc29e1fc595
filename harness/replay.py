"""Replays behaviours of spec/Solve.tla (written by SolveGen.tla) on the real Optimizer class.

A scripted optimizer (a subclass that only defines initialization() and evolve(), as the library's own algorithms do)
performs the moves of the behaviour; everything else (problem set-up, bookkeeping, counting, stopping, failure
handling) is the library's.  After every step the library's public state is compared with the specification's."""
import json
import random
import re
import time

import numpy as np
import rec
import tlc
from mealpy import FloatVar, Problem, Termination
from mealpy.optimizer import Optimizer
import mealpy.optimizer as MO
import mealpy.utils.termination as MT

UNIT = 0.125                  # one tick of the specification's clock, exact in binary
MAPS = [[1., 2., 3., 4., 5., 6.], [-3.5, -1., 0., 2., 1e6, 1e9], [-1e9, -1e5, -7.25, -7., -1e-3, 0.],
        [1e-8, 2e-8, 3e-8, 4e-8, 5e-8, 6e-8], [0., 0.5, 1., 1e3, 1e4, 1e5], [10., 10.000001, 10.000002, 11., 12., 13.]]


class Clock:
    """stands in for the time module inside mealpy.optimizer"""

    def __init__(self, real):
        self.now, self.real = 1000.0, real

    def perf_counter(self):
        return self.now
    time = monotonic = process_time = perf_counter

    def __getattr__(self, n):
        return getattr(self.real, n)


class Boom(Exception):
    pass


class TableProblem(Problem):
    """the first coordinate selects the fitness, the second makes the solution unique"""

    def __init__(self, minmax, values, **kw):
        self.values, self.calls, self.minus = values, 0, 0
        super().__init__(FloatVar(lb=[-100., -1e9], ub=[100., 1e9]), minmax, log_to=None, **kw)

    def obj_func(self, x):
        self.calls += 1
        if x[0] < 0:
            raise Boom("objective failed")
        return self.values[int(x[0]) - 1]


class Mismatch(Exception):
    pass


class Scripted(Optimizer):
    def __init__(self, epoch=10, pop_size=100, **kw):
        super().__init__(**kw)
        self.epoch, self.pop_size = epoch, pop_size
        self.set_parameters(["epoch", "pop_size"])
        self.sort_flag = False
        self.drv = None

    def __getstate__(self):
        return {k: v for k, v in self.__dict__.items() if k != "drv"}

    def initialization(self):
        if self.pop is None:
            self.drv.do_init()

    def before_main_loop(self):
        self.drv.after_init()

    def evolve(self, epoch):
        self.drv.do_evolve(epoch)


class SelfFull(Exception):
    pass


class Driver:
    def __init__(self, script, rnd, mode):
        self.script, self.rnd, self.mode = script, rnd, mode
        self.bad = []          # (property, clause, text)
        self.uid = 0
        self.opt = Scripted()
        self.opt.drv = self
        self.pos = 0
        self.kept = []         # histories of finished solves, with their values at that time
        self.steps = 0

    def fail(self, prop, clause, text):
        self.bad.append((prop, clause, text))

    def eq(self, prop, clause, got, want, what):
        self.steps += 1
        if got != want:
            self.fail(prop, clause, f"{what}: real {got}, specification {want}")

    def sol(self, f):
        self.uid += 1
        return np.array([float(f), float(self.uid)])

    def fits(self, agents):
        """fitness values as ranks of the specification; 0 when the agent does not match its own solution"""
        out = []
        for a in agents:
            v = float(a.target.fitness)
            i = int(a.solution[0])
            if not (1 <= i <= len(self.vals)) or self.vals[i - 1] != v:
                self.fail("S02", "pairing", f"solution {a.solution.tolist()} reported with fitness {v}")
                i = self.vals.index(v) + 1 if v in self.vals else 0
            out.append(i)
        return out

    # -------------------------------------------------------------- moves
    def evaluate(self, sols):
        o = self.opt
        if self.mode == "single":
            out = []
            for s in sols:
                a = o.generate_empty_agent(s)
                a.target = o.get_target(s)
                out.append(a)
            return out
        return o.update_target_for_population([o.generate_empty_agent(s) for s in sols])

    def extra(self, x):
        for _ in range(x):
            self.opt.get_target(self.sol(self.rnd.randint(1, len(self.vals))))

    def do_init(self):
        st = self.script[self.pos]
        if st["a"] == "fail":
            self.opt.get_target(np.array([-1., 0.]))
        assert st["a"] == "init", st
        self.opt.pop = self.evaluate([self.sol(f) for f in st["p"]])
        self.extra(st["x"])
        self.clock.now += st["dt"] * UNIT

    def after_init(self):
        st = self.script[self.pos]
        if st["a"] != "init":
            raise Mismatch("initialisation did not fail")
        self.compare(st["s"], "after initialisation", False)
        self.pos += 1

    def do_evolve(self, epoch):
        o = self.opt
        st = self.script[self.pos]
        if st["a"] == "book":              # previous epoch's bookkeeping has happened
            self.compare(st["s"], f"bookkeeping of epoch {st['s']['k']}", False)
            self.pos += 1
            st = self.script[self.pos]
            if st["a"] == "done":
                self.fail("S06", "continued_too_long", f"epoch {epoch} started although the run had to stop after epoch {st['s']['k']} with {st['s']['msg']}: {json.dumps(self.cfg)}")
                raise SelfFull()
            self.pos += 1
            st = self.script[self.pos]
        self.nepoch += 1
        self.eq("S06", "epoch_number", epoch, self.nepoch, "epoch passed to evolve")
        if st["a"] == "fail":
            self.extra(self.rnd.randint(0, 2))
            if self.mode == "single" or self.rnd.random() < 0.3:
                o.get_target(np.array([-1., 0.]))
            else:
                o.update_target_for_population([o.generate_empty_agent(s) for s in (self.sol(1), np.array([-1., 0.]), self.sol(2))])
            raise Mismatch("objective error disappeared")
        for q in st["q"]:
            o.update_global_best_agent(self.evaluate([self.sol(f) for f in q]), save=False)
        new = self.evaluate([self.sol(f) for f in st["p"]])
        how = st["how"]
        if how == "new":
            o.pop = new
        else:
            while len(o.pop) > len(new):
                o.pop.pop()
            for i, a in enumerate(new):
                if i >= len(o.pop):
                    o.pop.append(a)
                elif how == "inplace" or i % 2:
                    o.pop[i].solution[:] = a.solution
                    if i % 3 == 2:
                        o.pop[i].target.set_objectives(a.target.objectives); o.pop[i].target.calculate_fitness(a.target.weights)
                    else:
                        o.pop[i].update(target=a.target)
                else:
                    o.pop[i] = a
        self.extra(st["x"])
        self.clock.now += st["dt"] * UNIT
        self.pos += 1

    # -------------------------------------------------------------- comparison
    def compare(self, s, when, done):
        o, h = self.opt, self.opt.history
        self.eq("S03", "population", self.fits(o.pop), s["pop"], f"population {when}")
        self.eq("S07", "count", int(o.nfe_counter), s["nfe"], f"function evaluations {when}")
        self.eq("S07", "real_calls", self.calls(), s["nfe"], f"objective calls {when}")
        self.eq("S03", "best_so_far", self.fits([o.g_best])[0], s["run"][0], f"best so far {when}")
        for nm, spec, prop in (("list_global_best", "hgb", "S05"), ("list_current_best", "hcb", "S05"),
                               ("list_global_worst", "hgw", "S05"), ("list_current_worst", "hcw", "S05")):
            self.eq(prop, nm, self.fits(getattr(h, nm)), s[spec], f"{nm} {when}")
        self.eq("S05", "list_population", [self.fits(p) for p in h.list_population], s["hpop"], f"list_population {when}")
        k = s["k"]
        for nm in ("list_global_best_fit", "list_current_best_fit", "list_epoch_time", "list_diversity"):
            self.eq("S05", nm + "_length", len(getattr(h, nm)), k, f"length of {nm} {when}")
        tail = (lambda l: l) if done else (lambda l: l[1:])
        self.eq("S05", "list_global_best_fit", [float(v) for v in h.list_global_best_fit], [self.vals[i - 1] for i in tail(s["hgb"])], f"list_global_best_fit {when}")
        self.eq("S05", "list_current_best_fit", [float(v) for v in h.list_current_best_fit], [self.vals[i - 1] for i in tail(s["hcb"])], f"list_current_best_fit {when}")

    def calls(self):
        return self.prob.calls if self.mode != "process" else int(self.opt.nfe_counter)

    # -------------------------------------------------------------- the whole behaviour
    def run(self):
        self.clock = Clock(time)
        swapped = []
        fns = (time.perf_counter, time.time, time.monotonic, time.process_time)
        for mod in (MO, MT):      # every clock the solver can read
            for nm, v in list(vars(mod).items()):
                if v is time or any(v is f for f in fns):
                    swapped.append((mod, nm, v))
                    setattr(mod, nm, self.clock if v is time else self.clock.perf_counter)
        try:
            while self.pos < len(self.script):
                if not self.one_solve():
                    break
        finally:
            for mod, nm, v in swapped:
                setattr(mod, nm, v)
        for h, vals, why in self.kept:
            self.eq("S09", "earlier_history", self.histvals(h), vals, why)
        return self.bad

    @staticmethod
    def histvals(h):
        return [[(a.solution.tolist(), float(a.target.fitness)) for a in l] for l in
                (h.list_global_best, h.list_current_best, h.list_global_worst, h.list_current_worst)] + \
               [list(map(float, h.list_global_best_fit)), list(map(float, h.list_current_best_fit))] + \
               [[(a.solution.tolist(), float(a.target.fitness)) for a in p] for p in h.list_population]

    def one_solve(self):
        c = self.cfg = self.script[self.pos]["cfg"]
        self.pos += 1
        o = self.opt
        ep = c["crit"]["ep"]
        step, level = self.rnd.choice([(1., 1.), (.5, -2.), (2. ** -20, 7.), (1024., -6144.)])
        self.vals = [level + step * j for j in range(6)] if ep else self.rnd.choice(MAPS)
        self.nepoch = 0
        self.clock.now += self.rnd.choice([0., 1., 7.5])
        nxt = self.script[self.pos]
        n0 = len(nxt["p"]) if nxt["a"] == "init" else 3
        o.set_parameters({"epoch": c["E"], "pop_size": n0})
        o.sort_flag = c["sort"]
        self.prob = TableProblem(c["mm"], self.vals, **({"save_population": True} if c["save"] else {}))
        t = {}
        cr = c["crit"]
        if cr["mg"]: t["max_epoch"] = cr["mg"]
        if cr["fe"]: t["max_fe"] = cr["fe"]
        if cr["tb"]: t["max_time"] = cr["tb"] * UNIT
        if cr["es"]: t["max_early_stop"] = cr["es"]
        if cr["es"] and (ep or self.rnd.random() < .5):
            t["epsilon"] = step * (ep + self.rnd.choice([0., 0., .5])) if ep else self.rnd.choice([0, 0., 1e-12])
        form = self.rnd.choice(["dict", "instance", "used"])
        term = None
        if t:
            term = dict(t) if form == "dict" else Termination(log_to=None, **t)
            if form == "used":
                term.set_start_values(3, 500, 12.0, 2)
        kw = {}
        if nxt["a"] == "init" and nxt["x"] == 0 and nxt["dt"] == 0 and self.rnd.random() < 0.5:
            kw["starting_solutions"] = [self.sol(f) for f in nxt["p"]]
            if self.rnd.random() < 0.3:
                kw["starting_solutions"] = np.array(kw["starting_solutions"])
            elif self.rnd.random() < 0.3:
                kw["starting_solutions"] = [tuple(s) for s in kw["starting_solutions"]]
        err = None
        ret = None
        try:
            ret = o.solve(self.prob, mode=self.mode, n_workers=(2 if self.mode in ("thread", "process") else None),
                          termination=term, seed=self.rnd.choice([None, 5]), **kw)
        except SelfFull:
            return False
        except Boom as e:
            err = e
        except Mismatch as e:
            self.fail("S18", "propagates", str(e))
            return False
        except Exception as e:          # noqa
            if self.pos < len(self.script) and self.script[self.pos]["a"] == "fail":
                self.fail("S18", "same_exception", f"the objective raised Boom, solve() raised {type(e).__name__}: {e}")
            else:
                self.fail("*", "crash", f"{type(e).__name__}: {e} at step {self.pos}")
            return False
        st = self.script[self.pos] if self.pos < len(self.script) else {"a": "end"}
        if st["a"] == "fail":
            if err is None:
                self.fail("S18", "propagates", "the objective raised, but solve() returned")
            self.pos += 1
            return True
        if err is not None:
            self.fail("*", "crash", f"unexpected {err}")
            return False
        if st["a"] == "book":
            self.pos += 1
            st = self.script[self.pos]
            if st["a"] == "go":
                self.fail("S06", "stopped_too_early", f"stopped after epoch {st['s']['k']} of {c['E']} with {json.dumps(cr)}; nfe {st['s']['nfe']}")
                return False
        if st["a"] != "done":
            self.fail("S06", "stopped_too_early", f"stopped when the specification does {st['a']}")
            return False
        s = st["s"]
        self.compare(s, "at the end", True)
        h = o.history
        self.eq("S03", "returned", self.fits([ret])[0], s["ret"], "returned agent")
        self.eq("S05", "history_epoch", h.epoch, s["k"], "history.epoch")
        self.eq("S05", "exploration_length", [len(h.list_exploration), len(h.list_exploitation)], [s["k"]] * 2, "exploration/exploitation")
        if term is not None and not (form == "used" and s["msg"] == "none"):
            m = o.termination.message or ""
            code = next((x for x in ("MG", "FE", "TB", "ES") if f"({x})" in m), "none" if m == "" else "other")
            self.eq("S06", "message", code, s["msg"], "criterion reported")
        self.kept.append((h, self.histvals(h), "history object of an earlier solve"))
        self.pos += 1
        return True


def behaviours(n, seed, focus="all", depth=200, maxe=6, solves=2, maxpop=4, nfit=4, timeout=300):
    cfg = f"""SPECIFICATION GSpec
CONSTANTS NFit={nfit} MaxPop={maxpop} MaxE={maxe} MaxSolves={solves} Focus="{focus}"
INVARIANTS BestSoFar Returned Monotone Bracket Complete Bounded StopsExactly EarlyStopNotMissed SortedPop
"""
    rc, out, st = tlc.run("SolveGen", cfg, extra=("-simulate", f"num={n}", "-depth", str(depth), "-seed", str(seed)), timeout=timeout)
    m = re.findall(r"The number of states generated: (\d+)", out)
    res = []
    for ln in out.split("\n"):
        ln = ln.strip()
        if ln.startswith('"@@'):
            res.append(json.loads(json.loads(ln)[2:]))
    return res, int(m[-1]) if m else 0


def job(a):
    scripts, seed = a
    out, n, steps = [], 0, 0
    for i, sc in enumerate(scripts):
        r = random.Random(f"{seed}:{i}")
        mode = r.choices(["single", "swarm", "thread", "process"], [60, 26, 13.6, 0.4])[0]
        d = Driver(sc, r, mode)
        try:
            bad = d.run()
        except AssertionError:
            raise
        except Exception as e:    # noqa
            bad = [("*", "crash", f"{type(e).__name__}: {e}")]
        n += 1
        steps += d.steps
        for b in bad[:6]:
            out.append({"prop": b[0], "clause": b[1], "text": b[2], "script": sc, "mode": mode})
    return {"n": n, "steps": steps, "fails": out[:40]}
