"""S20, S22: agents, targets and the helpers that choose among them. Helpers.tla is model checked (HelpersMC);
random histories of calls of the real classes are judged by HelpersTrace.tla."""
import json
import math
import os
import random
import shutil
import tempfile

import numpy as np

import rec  # noqa
import tlc
from common import SEED
from pool import run_jobs

T = 10000
BAD = -1999999999
CALL = {"op": "", "a": [], "b": [], "n": [], "s": [], "o": [], "w": [], "r": [], "src": [], "q": [], "z": [], "p": [], "mm": "min", "err": False, "what": "", "view": []}
HEAP = ("new", "copy", "duplicate", "rebind", "edit", "retarget", "setx", "sync", "equal", "better_solution")
OF = {"S22": HEAP}


def ints(x):
    out = []
    for v in np.asarray(x, dtype=object).ravel():
        f = float(v)
        out.append(int(f) if f == f and abs(f) < 2e9 and f == int(f) else BAD)
    return out


def tick(v):
    v = float(v)
    return BAD if math.isnan(v) or abs(v) > 1e5 else round(v * T)


class Heap:
    """the real agents of a history, numbered as they appear"""

    def __init__(self, tid, r):
        self.r, self.ag, self.d = r, [], {"id": tid, "calls": []}
        self.dims, self.objs = r.randint(1, 3), r.randint(1, 3)
        self.fam = r.choice(["few", "few", "wide", "neg"])

    def val(self):
        return self.r.choice({"few": [0, 1, 2], "wide": range(-50, 51), "neg": [-3, -2, -1]}[self.fam])

    def pos(self):
        return [self.r.choice([0, 1, 2]) for _ in range(self.dims)]

    def vals(self):
        return [self.val() for _ in range(self.objs)]

    def look(self, a):
        return {"s": ints(a.solution), "o": ints(a.target.objectives), "f": ints([a.target.fitness])[0], "x": -1 if getattr(a, "mark", 0) is None else int(getattr(a, "mark", 0))}

    def num(self, a):
        return next((k + 1 for k, b in enumerate(self.ag) if b is a), 0)

    def add(self, objs):
        """numbers of returned objects; unknown ones are new"""
        out = []
        for a in objs:
            k = self.num(a)
            if k == 0:
                self.ag.append(a)
                k = len(self.ag)
            out.append(k)
        return out

    def source(self, a, cands, prefer=None):
        v = self.look(a)
        c = ([prefer] if prefer else []) + list(cands)
        return next((k for k in c if 0 < k <= len(self.ag) and self.look(self.ag[k - 1]) == v), c[0])

    def call(self, op, fn, **kw):
        c = dict(CALL, op=op)
        c.update(kw)
        try:
            fn(c)
            c["view"] = [dict(self.look(a), id=int(a.id)) for a in self.ag]
        except Exception as e:      # noqa
            c["err"], c["what"] = True, f"{type(e).__name__}: {e}"[:200]
            self.d["calls"].append(c)
            raise
        self.d["calls"].append(c)

    def some(self, lo=1, hi=8):
        n = len(self.ag)
        k = self.r.randint(min(lo, n), min(hi, n))
        return self.r.sample(range(1, n + 1), k)


def wlist(r, w):
    """a way to write the weights"""
    if len(set(w)) == 1:
        return r.choice([w, tuple(w), np.array(w), w[0]] + ([None] if w[0] == 1 else []))
    return r.choice([w, tuple(w), np.array(w, dtype=float)])


def olist(r, o):
    return r.choice([o, tuple(o), np.array(o), np.array(o, dtype=float)] + ([o[0], float(o[0])] if len(o) == 1 else []))


def heap_history(tid, r, n, weight_heap):
    from mealpy import Optimizer
    from mealpy.utils.agent import Agent
    from mealpy.utils.target import Target
    H = Heap(tid, r)
    opt = Optimizer()

    def weights():
        return [1] * H.objs if r.random() < .4 else [r.choice([0, 1, 2, -1]) for _ in range(H.objs)] if r.random() < .7 else [r.choice([2, 3])] * H.objs

    def target(o, w):
        return Target(olist(r, o), wlist(r, w))

    def new(c):
        kw = {"mark": 0} if r.random() < .6 else {}
        a = Agent(np.array(c["s"], dtype=float) if r.random() < .8 else list(map(float, c["s"])), target(c["o"], c["w"]), **kw)
        if not isinstance(a.solution, np.ndarray):
            a = a.copy()
        c["r"] = H.add([a])

    def do_new():
        H.call("new", new, s=H.pos(), o=H.vals(), w=weights())
    P = lambda a: [H.ag[k - 1] for k in a]      # noqa
    try:
        for _ in range(r.randint(2, 6)):
            do_new()
        for _ in range(n):
            mm = r.choice(["min", "max"])
            if len(H.ag) > 24:
                break
            op = r.choice(weight_heap)
            if op == "new":
                do_new()
            elif op == "copy":
                a = H.some(1, 1)

                def f(c):
                    x = P(a)[0].copy()
                    c["src"], c["r"] = [H.source(x, a)], H.add([x])
                H.call(op, f, a=a)
            elif op == "duplicate":
                a = H.some(0, 5)

                def f(c):
                    p = P(a)
                    q = Optimizer.duplicate_pop(p)
                    c["src"], c["r"] = [H.source(x, a, k) for x, k in zip(q, a)], H.add(q)
                H.call(op, f, a=a)
            elif op == "edit":
                a, j, v = H.some(1, 1), r.randrange(H.dims), r.choice([0, 1, 2, 7])

                def f(c):
                    P(a)[0].solution[j] = v
                H.call(op, f, a=a, n=[j + 1, v])
            elif op == "rebind":
                a = H.some(1, 1)
                s, o, w = H.pos(), H.vals(), weights()

                def f(c):
                    x, t = np.array(s, dtype=float), target(o, w)
                    r.choice([lambda: P(a)[0].update(solution=x, target=t), lambda: P(a)[0].update_agent(x, t)])()
                H.call(op, f, a=a, s=s, o=o, w=w)
            elif op == "retarget":
                a = H.some(1, 1)
                o, w = H.vals(), weights()

                def f(c):
                    t = P(a)[0].target
                    t.set_objectives(olist(r, o))
                    t.set_weights(wlist(r, w))
                    t.calculate_fitness(t.weights)
                H.call(op, f, a=a, o=o, w=w)
            elif op == "setx":
                a, v = H.some(1, 1), r.choice([-1, 0, 1, 2, 3])

                def f(c):
                    x = None if v < 0 else v
                    r.choice([lambda: P(a)[0].update(mark=x), lambda: setattr(P(a)[0], "mark", x)])()
                H.call(op, f, a=a, n=[v])
            elif op == "sync":
                a = H.some(2, 2)
                if len(a) == 2:
                    def f(c):
                        c["q"] = [int(P(a)[0].sync_if_duplicate(P(a)[1]))]
                    H.call(op, f, a=a)
            elif op == "equal":
                a = H.some(2, 2)
                if len(a) == 2:
                    def f(c):
                        x, y = P(a)
                        c["q"] = [int(x == y), int(hash(x) == hash(y))]
                    H.call(op, f, a=a)
            elif op == "better_solution":
                a = H.some(2, 2)
                if len(a) == 2:
                    def f(c):
                        x, y = P(a)
                        c["r"], c["q"] = H.add([x.get_better_solution(y, mm)]), [int(x.is_better_than(y, mm))]
                    H.call(op, f, a=a, mm=mm)
            elif op == "better_agent":
                a, rev = H.some(2, 2), r.randrange(2)
                if len(a) == 2:
                    def f(c):
                        x = Optimizer.get_better_agent(*P(a), mm, reverse=bool(rev)) if rev or r.random() < .5 else Optimizer.get_better_agent(*P(a), minmax=mm)
                        c["src"], c["r"] = [H.source(x, a)], H.add([x])
                    H.call(op, f, a=a, n=[rev], mm=mm)
            elif op == "compare":
                a = H.some(2, 2)
                if len(a) == 2:
                    def f(c):
                        x, y = P(a)
                        c["q"] = [int(Optimizer.compare_target(x.target, y.target, mm)), int(Optimizer.compare_fitness(x.target.fitness, y.target.fitness, mm))]
                    H.call(op, f, a=a, mm=mm)
            elif op == "sorted":
                a = H.some(1, 12)

                def f(c):
                    p = P(a)
                    q, idx = Optimizer.get_sorted_population(p, mm)
                    c["q"], c["r"] = ints(idx), H.add(q)
                    same(p, P(a))
                H.call(op, f, a=a, mm=mm)
            elif op in ("best", "worst"):
                a = H.some(1, 9)

                def f(c):
                    x, k = (Optimizer.get_best_agent if op == "best" else Optimizer.get_worst_agent)(P(a), mm)
                    c["q"] = [int(k)]
                    c["src"], c["r"] = [H.source(x, a, a[int(k)])], H.add([x])
                H.call(op, f, a=a, mm=mm)
            elif op == "special":
                a, ri = H.some(1, 9), r.randrange(2)
                nb, nw = r.choice([None, 0, 1, 2, 3, 20]), r.choice([None, 0, 1, 2, 3, 20])

                def f(c):
                    p = P(a)
                    srt, b, w = Optimizer.get_special_agents(p, n_best=nb, n_worst=nw, minmax=mm, return_index=bool(ri))
                    at = lambda x: next((k for k, y in enumerate(p) if y is x), -1)      # noqa
                    c["p"] = [at(x) for x in srt]
                    if (b is None) != (nb is None) or (w is None) != (nw is None):
                        c["p"] = []
                    b, w = b or [], w or []
                    if ri:
                        c["q"], c["z"] = ints(b), ints(w)
                    else:
                        # the sources: in the order of the sorted population
                        ob = [H.source(x, a, H.num(srt[k])) for k, x in enumerate(b)]
                        ow = [H.source(x, a, H.num(srt[::-1][k])) for k, x in enumerate(w)]
                        c["q"], c["z"] = [a.index(k) for k in ob], [a.index(k) for k in ow]
                        c["src"], c["r"] = ob + ow, H.add(list(b) + list(w))
                H.call(op, f, a=a, n=[0 if nb is None else nb, 0 if nw is None else nw, ri], mm=mm)
            elif op == "fitness":
                a = H.some(1, 9)
                H.call(op, lambda c: c.update(q=ints(Optimizer.get_special_fitness(P(a), mm))), a=a, mm=mm)
            elif op == "greedy":
                k = r.randint(1, max(1, len(H.ag) // 2))
                a, b = H.some(k, k), H.some(k, k)

                def f(c):
                    x, y = P(a), P(b)
                    c["r"] = H.add(Optimizer.greedy_selection_population(x, y, mm))
                    same(x, P(a)), same(y, P(b))
                H.call(op, f, a=a, b=b, mm=mm)
                if len(H.ag) > k:
                    raises(H, lambda: Optimizer.greedy_selection_population(P(a), P(b) + P(b)[:1], mm))
            elif op == "trim":
                a, k = H.some(1, 9), r.randint(0, 10)

                def f(c):
                    p = P(a)
                    q = Optimizer.get_sorted_and_trimmed_population(p, k, mm)
                    c["q"], c["r"] = [next((j for j, y in enumerate(p) if y is x), -1) for x in q], H.add(q)
                    same(p, P(a))
                H.call(op, f, a=a, n=[k], mm=mm)
            elif op == "groups":
                m, g = r.randint(1, 4), r.randint(1, 4)
                a = H.some(1, 9)

                def f(c):
                    p = P(a)
                    q = opt.generate_group_population(p, g, m)
                    c["q"] = [len(x) for x in q]
                    flat = [x for y in q for x in y]
                    c["src"], c["r"] = [H.source(x, a, a[k] if k < len(a) else None) for k, x in enumerate(flat)], H.add(flat)
                    same(p, P(a))
                H.call(op, f, a=a, n=[g, m])
            elif op == "badtarget":
                raises(H, lambda: Target(r.choice([None, "abc", {}, {1: 2}])))
                raises(H, lambda: Target([1, 2], r.choice(["abc", {}])))
                raises(H, lambda: P([1])[0].target.set_objectives(None))
    except Exception:      # noqa  (recorded by call())
        pass
    return H.d


def same(p, q):
    if len(p) != len(q) or any(x is not y for x, y in zip(p, q)):
        raise AssertionError("the population that was given has been changed")


def raises(H, fn, exc=ValueError):
    c = dict(CALL, op="raises")
    try:
        fn()
        c["what"] = "accepted"
    except exc:
        c["what"] = "raised"
    except Exception as e:      # noqa
        c["what"] = f"{type(e).__name__}: {e}"[:150]
    c["view"] = [dict(H.look(a), id=int(a.id)) for a in H.ag]
    H.d["calls"].append(c)


def draw_history(tid, r, draws):
    """sampling, roulette, tournament, crossover, opposition, Levy flights, improved_ms"""
    from mealpy import FloatVar, Optimizer, Problem
    from mealpy.utils.agent import Agent
    from mealpy.utils.target import Target
    d = {"id": tid, "calls": []}

    class P(Problem):
        log = []

        def obj_func(self, x):
            v = float(np.sum(np.round(x, 3) ** 2)) + float(x[0])
            self.log.append((tuple(x), v))
            return v

    dims = r.randint(1, 3)
    lb = [r.randint(-6, 2) + .5 * r.randrange(2) for _ in range(dims)]
    ub = [x + r.randint(1, 8) for x in lb]
    opt = Optimizer()
    opt.sort_flag = False
    mm = r.choice(["min", "max"])
    opt.epoch, opt.pop_size = 1, 5

    class Q(Optimizer):
        pass
    opt = Q()
    opt.epoch, opt.pop_size, opt.sort_flag = 1, r.randint(4, 9), False
    mode = r.choice(["single", "swarm", "single", "thread"])
    prob = P(FloatVar(lb=lb, ub=ub), mm, log_to=None)
    opt.solve(prob, mode=mode, n_workers=2 if mode == "thread" else None, seed=r.randrange(10 ** 6))

    def call(op, fn, **kw):
        c = dict(CALL, op=op, mm=mm)
        c.update(kw)
        try:
            fn(c)
        except Exception as e:      # noqa
            c["err"], c["what"] = True, f"{type(e).__name__}: {e}"[:200]
        d["calls"].append(c)

    gen = opt.generator
    # sampling without some indices
    n = r.randint(2, 7)
    ex = r.sample(range(n), r.choice([0, 1, 1, 1, min(2, n - 1)]))
    kinds = ["list"] + (["one", "one"] if len(ex) == 1 else [])
    for _ in range(draws // 40 + 60):
        rep = r.random() < .3
        k = r.randint(1, n + 1 if rep else n - len(ex))
        kind = r.choice(kinds)

        def f(c):
            e = r.choice([list(ex), np.array(ex, dtype=int)]) if kind == "list" else ex[0]
            g = (opt.sample_indexes_exclude_list if kind == "list" else opt.sample_indexes_exclude_one)(gen, n, e, k, replace=rep)
            c["b"] = ints(e if kind == "list" else [e])
            c["q"] = ints([g] if np.ndim(g) == 0 else g)
            c["n"] = [n, k, int(rep), int(np.ndim(g) == 0)]
        call("sample", f, a=list(ex))
    call("drawn", lambda c: None, n=[n], a=list(ex))
    # roulette
    for _ in range(2):
        m = r.randint(1, 5)
        fit = [r.randint(*r.choice([(0, 9), (-9, 9), (-9, -1), (1, 3)])) for _ in range(m)]
        if r.random() < .2:
            fit = [fit[0]] * m

        def f(c):
            cnt = [0] * m
            x = r.choice([lambda: np.array(fit, dtype=float), lambda: list(fit), lambda: np.array(fit)])()
            for _ in range(draws):
                cnt[int(opt.get_index_roulette_wheel_selection(x))] += 1
            same_num(x, fit)
            c["q"], c["n"] = cnt, [draws, int(6 * math.sqrt(draws * .25)) + 1]
        call("wheel", f, a=fit)
    # tournament
    for _ in range(8):
        m = r.randint(3, 9)
        fit = [r.randint(0, r.choice([2, 20])) for _ in range(m)]
        out = r.randint(1, min(3, m))
        kw = r.choice([r.randint(out, m), r.choice([.3, .5, .9])])
        rev = r.random() < .4
        # a rate gives at least as many agents as are asked for
        k = kw if isinstance(kw, int) else max(int(kw * m), out)
        pop = [Agent(np.zeros(1), Target(float(v))) for v in fit]
        call("tournament", lambda c: c.update(q=ints(opt.get_index_kway_tournament_selection(pop, k_way=kw, output=out, reverse=rev))), a=fit, n=[k, out, int(rev)])
    # every agent that may win a tournament does win
    for _ in range(3):
        m = r.randint(2, 5)
        fit = [r.randint(0, r.choice([1, 9])) for _ in range(m)]
        k = r.choice([1, 1, r.randint(1, m)])
        pop = [Agent(np.zeros(1), Target(float(v))) for v in fit]
        call("tournaments", lambda c: c.update(q=sorted({int(x) for _ in range(350) for x in opt.get_index_kway_tournament_selection(pop, k_way=k, output=1)})), a=fit, n=[k])
    # crossover and opposition
    for _ in range(4):
        x, y = (np.array([r.uniform(l, u) for l, u in zip(lb, ub)]) for _ in range(2))

        def f(c):
            a, b = opt.crossover_arithmetic(x if r.random() < .5 else list(x), y)
            c["q"], c["z"] = [tick(v) for v in a], [tick(v) for v in b]
        call("crossover", f, a=[tick(v) for v in x], b=[tick(v) for v in y])

        def f(c):
            p = opt.generate_opposition_solution(Agent(x, Target(1.)), Agent(y, Target(0.)))
            c["q"] = [tick(v) for v in p]
        call("opposition", f, a=[tick(v) for v in x], b=[tick(v) for v in y], s=[tick(v) for v in lb], o=[tick(v) for v in ub])
    # Levy flights
    for _ in range(4):
        size, case = r.choice([None, 1, 3, (2, 3), (4,), [2, 2]]), r.choice([0, 1, -1])
        shape = [] if size in (None, 1) else [size] if isinstance(size, int) else list(size)

        def f(c):
            s = opt.get_levy_flight_step(beta=r.choice([.5, 1., 1.5, 1.9]), multiplier=r.choice([.001, .1, 1.]), size=size, case=case)
            c["q"], c["n"] = list(np.shape(s)), [int(bool(np.all(np.isfinite(s))))]
        call("levy", f, a=shape)

    # improved_ms
    def f(c):
        pop = [a.copy() for a in opt.pop]
        fits = [a.target.fitness for a in pop]
        P.log.clear()
        n0 = opt.nfe_counter
        new = opt.improved_ms(pop, opt.g_best)
        seen = {(tuple(a.solution), a.target.fitness) for a in opt.pop} | set(P.log)
        res = [a.target.fitness for a in new]
        rank = {v: k for k, v in enumerate(sorted(set(fits + res)))}
        c["a"], c["q"] = [rank[v] for v in fits], [rank[v] for v in res]
        c["z"] = [int((tuple(a.solution), a.target.fitness) in seen) for a in new]
        c["n"] = [opt.nfe_counter - n0, len(P.log)]
    call("improve", f)
    return d


def near_history(tid, r, n):
    """equality of agents whose positions are close to each other (a: 1 the same up to rounding noise, 2 close, 3 different)"""
    from mealpy.utils.agent import Agent
    H = Heap(tid, r)
    from mealpy.utils.target import Target
    for k in range(n):
        kind = r.choice([1, 1, 3]) if k < n - 2 else 2
        m = r.randint(1, 5)
        x = np.array([r.randint(-7, 7) + r.choice([0., .25, .5]) for _ in range(m)])
        y = x.copy()
        j = r.randrange(m)
        if kind == 1:
            y[j] += r.choice([1e-9, -1e-9, 1e-11, 0.])
        elif kind == 2:
            x[j] += 4e-7 * r.choice([1, -1])
            y[j] = x[j] + 2e-7 * r.choice([1, -1])
        else:
            y[j] += r.choice([1e-3, -1e-3, 1e-2, 1.])

        def f(c):
            t = Target([1.], [1.])
            a, b = Agent(x, t), Agent(y, t.copy())
            c["q"] = [int(a == b), int(b == a), int(hash(a) == hash(b)), int(a == a), int(a == 3), int(len({a, b}) == (1 if kind == 1 else 2))]
        H.call("near", f, n=[kind])
        H.d["calls"][-1]["view"] = []
    return H.d


def same_num(x, y):
    if list(np.asarray(x)) != list(y):
        raise AssertionError("the fitness values that were given have been changed")


ALLOPS = HEAP + ("better_agent", "compare", "sorted", "sorted", "best", "worst", "special", "special", "fitness", "greedy", "greedy", "trim", "groups")
PICK = ("new", "rebind", "edit", "setx") + ("better_agent", "compare", "sorted", "best", "worst", "special", "special", "fitness", "greedy", "trim", "groups") * 2


def job(a):
    kind, n, seed, path = a
    r = random.Random(f"{SEED}:{seed}:{kind}")
    ids = {}
    with open(path, "w") as f:
        for j in range(n):
            tid = f"{kind}#{seed}.{j}"
            try:
                line = draw_history(tid, r, 2000) if kind == "draw" else near_history(tid, r, 60) if kind == "near" else heap_history(tid, r, 25, (HEAP + ("badtarget",)) if kind == "heap" else PICK if kind == "pick" else ALLOPS)
            except Exception as e:      # noqa
                line = {"id": tid, "calls": [dict(CALL, op="history", err=True, what=f"{type(e).__name__}: {e}"[:200])]}
            f.write(json.dumps(line, separators=(",", ":")) + "\n")
            ids[tid] = ([(c["op"], c["what"]) for c in line["calls"] if c["err"] or c["op"] == "raises" and c["what"] != "raised"][:2], len(line["calls"]), [c["op"] for c in line["calls"]][:12])
    return ids


INV = "INVARIANTS OwnSolution SharedOnlyBySync Independent FitnessUpToDate SortExists FirstIsBest PrefixIsTop ReverseIsSorting GreedyNeverLoses TrimKeepsBest GroupsPartition ShiftSkips WheelFair WholeTournament KWay\n"
MC = {"quick": [(3, 2, 10, 4), (4, 1, 9, 4)], "thorough": [(3, 3, 9, 5), (4, 2, 9, 5)]}


def canaries(lines):
    """recordings in which one result is changed"""
    out = []
    for op, field, n in (("sorted", "q", None), ("greedy", "r", None), ("copy", "view", None), ("best", "q", None), ("wheel", "q", None), ("sample", "q", None), ("edit", "view", None), ("better_solution", "q", None)):
        ln = next((l for l in lines if any(c["op"] == op and len(c[field]) > 1 - (op in ("best", "sample", "better_solution")) for c in l["calls"])), None)
        if ln is None:
            continue
        ln = json.loads(json.dumps(ln))
        c = next(c for c in ln["calls"] if c["op"] == op and len(c[field]) > 1 - (op in ("best", "sample", "better_solution")))
        if field == "view":
            c["view"][0]["s"][0] += 1
        elif op == "wheel":
            c["q"][0] += 2000
        elif op == "better_solution":
            c["q"] = [1 - c["q"][0]]
        else:
            c[field][0] = c[field][0] + 100
        ln["id"] = "canary#" + op
        out.append(ln)
    return out


def part(rep, prop, tier):
    for ag, rng, low, ops in MC[tier]:
        _, _, st = tlc.run("HelpersMC", f"SPECIFICATION Spec\nCONSTANTS MaxAgents={ag} Span={rng} Low={low} MaxOps={ops}\n" + INV, workers="8", xmx="6g", timeout=800)
        rep.add({"states": st["distinct"], "transitions": st["generated"], "design_states": st["distinct"]})
    d = tempfile.mkdtemp(prefix="vhelp_")
    try:
        if prop == "S22":
            kinds, (m, n) = ("heap", "mixed", "near"), {"quick": (16, 60), "thorough": (64, 250)}[tier]
        else:
            kinds, (m, n) = ("pick", "mixed", "draw"), {"quick": (16, 40), "thorough": (64, 160)}[tier]
        jobs = [(k, n if k != "draw" else max(4, n // 8), s, os.path.join(d, f"{k}.{s}.nd")) for k in kinds for s in range(m)]
        info = {}
        for x in run_jobs(job, jobs, chunksize=1):
            info.update(x)
        import solvecheck
        sh = solvecheck.shards([j[3] for j in jobs], d)
        with open(sh[0]) as f:
            can = canaries([json.loads(l) for l in f])
        if prop == "S20":
            can = [c for c in can if c["id"] not in ("canary#copy", "canary#edit", "canary#better_solution")]
        with open(sh[0], "a") as f:
            for c in can:
                f.write(json.dumps(c, separators=(",", ":")) + "\n")
        outs, st = tlc.judge_many("HelpersTrace", "SPECIFICATION Spec\n", sh)
        fails = [x for o in outs for x in o["fails"]]
        caught = {x["id"] for x in fails if x["id"].startswith("canary#")}
        if len(caught) != len(can) and len(caught) == len({x["id"] for x in fails}):
            raise SystemExit("machinery failure: altered calls were accepted")
        for x in fails:
            if x["id"].startswith("canary#"):
                continue
            op = x.get("op", "?")
            heap = op in HEAP + ("near",) or (op == "raises" and x["id"].startswith("heap"))
            if heap != (prop == "S22") and op not in ("?", "history"):
                continue
            what = info[x["id"]][0]
            rep.violation((op, x["clause"]), f"{op}: {x['clause']} at call {x['at']} of history {x['id']} {what}", {"id": x["id"], "clause": x["clause"], "call": x["at"], "errors": what})
        rep.add({"states": sum(s["distinct"] for s in st), "transitions": sum(s["generated"] for s in st), "traces_validated_against_impl": len(info),
                 "calls_judged": sum(o.get("events", 0) for o in outs), "altered_calls_rejected": len(caught)})
        rep.samples += [f"{i}: {' '.join(v[2])} ..." for i, v in list(info.items())[:: max(1, len(info) // 8)]][:8]
    finally:
        shutil.rmtree(d, ignore_errors=True)
