"""S12: decision variables. Codec.tla is model checked (CodecMC), and calls of the real variables are judged by CodecTrace.tla."""
import json
import math
import os
import random
import shutil
import tempfile

import numpy as np

import rec
import tlc
from common import SEED
from pool import run_jobs

T = 10000
BAD = -1999999999
BIG = 2000000000


def tick(v):
    """real number -> ticks, BAD if it is not a whole number of ticks"""
    v = float(v)
    if math.isnan(v):
        return BAD
    if math.isinf(v) or abs(v) * T >= BIG:
        return BIG if v > 0 else -BIG
    r = round(v * T)
    return r if abs(v * T - r) < 1e-4 * max(1., abs(v)) else BAD


def ticks(x):
    try:
        return [tick(v) for v in list(x)]
    except Exception:      # noqa
        return [BAD]


def ints(x):
    out = []
    for v in list(x):
        f = float(v)
        out.append(int(f) if f == int(f) else BAD)
    return out


def lab(v):
    """labels are compared with their type (1, 1.0, '1' and True are not the same)"""
    if isinstance(v, (str, np.str_)):
        return ("s", str(v))
    if v is None:
        return ("n",)
    if isinstance(v, (bool, np.bool_)):
        return ("b", bool(v))
    if isinstance(v, (int, np.integer)):
        return ("i", int(v))
    if isinstance(v, (float, np.floating)):
        return ("f", float(v))
    if isinstance(v, (tuple, list)):
        return ("t", tuple(lab(x) for x in v))
    if isinstance(v, np.ndarray):
        return ("t", tuple(lab(x) for x in v))
    return ("o", repr(v))


class V:
    """one variable: descriptor, specification record, conversions"""

    def __init__(self, d):
        self.d, self.k = d, d[0]
        z = dict(lo=[], hi=[], n=[], zeros=True)
        if self.k == "float":
            self.spec = dict(z, k="float", lo=ticks(np.ravel(d[1])), hi=ticks(np.ravel(d[2])))
        elif self.k == "int":
            self.spec = dict(z, k="int", lo=[int(v) for v in np.ravel(d[1])], hi=[int(v) for v in np.ravel(d[2])])
        elif self.k in ("str", "cat"):
            self.sets = d[1] if isinstance(d[1][0], (list, tuple)) else [d[1]]
            self.spec = dict(z, k="label", n=[len({lab(x) for x in s}) for s in self.sets])
        elif self.k == "seq":
            self.sets = [d[1]]
            self.spec = dict(z, k="label", n=[len(d[1])])
        elif self.k == "perm":
            self.sets = [d[1]]
            self.spec = dict(z, k="perm", n=[len(d[1])])
        elif self.k in ("bin", "bool"):
            self.spec = dict(z, k="bit", n=[d[1]])
        else:
            lb, ub = -8., 8.
            if len(d) > 4:
                lb, ub = d[4], d[5]
            self.spec = dict(z, k="tbit", lo=[tick(lb)] * d[1], hi=[tick(ub)] * d[1], zeros=not (self.k == "tbin" and len(d) > 3 and d[3] is False))
        self.codes = None

    @property
    def n(self):
        s = self.spec
        return len(s["lo"]) or (len(s["n"]) if s["k"] == "label" else s["n"][0])

    def make(self, name=None):
        from mealpy import TransferBinaryVar, TransferBoolVar
        d = self.d
        if self.k in ("tbin", "tbool") and len(d) > 4:
            cls = TransferBinaryVar if self.k == "tbin" else TransferBoolVar
            kw = {"all_zeros": d[3]} if self.k == "tbin" else {}
            v = cls(n_vars=d[1], tf_func=d[2], lb=d[4], ub=d[5], **kw)
        else:
            v = rec.make_var(d)
        if name is not None:
            v.name = name
        return v

    def learn(self, var):
        """code of every label, from encode(): a call the specification judges (`labels`)"""
        self.codes = []
        if self.spec["k"] not in ("label", "perm"):
            return
        for j, s in enumerate(self.sets):
            m = {}
            for x in s:
                if self.k == "seq":
                    e = var.encode(x)
                    m[lab(list(x))] = tick(e[0]); m[lab(tuple(x))] = tick(e[0])
                elif self.k == "perm":
                    e = var.encode(s)
                    m[lab(x)] = tick(e[list(s).index(x)])
                else:
                    vals = [q[0] for q in self.sets]
                    vals[j] = x
                    m[lab(x)] = tick(var.encode(vals)[j])
            self.codes.append(m)

    def value(self, d):
        """a value as returned by decode()/generate() -> numbers of the specification"""
        k = self.spec["k"]
        if k == "float":
            return ticks(d)
        if k in ("int", "tbit", "bit"):
            if self.k in ("bool", "tbool"):
                return [(1 if b else 0) if isinstance(b, (bool, np.bool_)) else BAD for b in list(d)]
            return ints(d)
        if self.k == "seq":
            d = [d] if not (len(d) == 1 and isinstance(d[0], (list, tuple))) else d
            return [self.codes[0].get(lab(d[0]), BAD) // T + 1]
        if k == "perm":
            return [self.codes[0].get(lab(x), BAD) // T + 1 for x in list(d)]
        return [self.codes[j].get(lab(x), BAD) // T + 1 for j, x in enumerate(list(d))]

    def randval(self, r):
        """a random value of the domain, in user form, and its numbers"""
        k, s = self.spec["k"], self.spec
        if k == "float":
            v = [r.randint(a // 2500, b // 2500) * 2500 if a <= (a // 2500 + 1) * 2500 <= b else a for a, b in zip(s["lo"], s["hi"])]
            v = [min(max(x, a), b) for x, a, b in zip(v, s["lo"], s["hi"])]
            return [x / T for x in v], v
        if k == "int":
            v = [r.randint(a, b) for a, b in zip(s["lo"], s["hi"])]
            return v, v
        if k in ("bit", "tbit"):
            v = [r.randint(0, 1) for _ in range(self.n)]
            if k == "tbit" and not s["zeros"]:
                v[r.randrange(self.n)] = 1
            return ([bool(b) for b in v] if self.k in ("bool", "tbool") else v), v
        if self.k == "seq":
            x = r.choice(self.sets[0])
            return (list(x) if r.random() < .5 else tuple(x)), self.value([x])
        if k == "perm":
            x = list(self.sets[0]); r.shuffle(x)
            return x, self.value(x)
        x = [r.choice(list(q)) for q in self.sets]
        return x, self.value(x)

    def point(self, r):
        """a point of the continuous box, or outside of it: boundaries of the cells, their neighbours, far away"""
        s = self.spec
        out = []
        lo, hi = [], []
        for j in range(self.n):
            if s["k"] in ("float", "tbit"):
                lo.append(s["lo"][j]); hi.append(s["hi"][j])
            elif s["k"] == "int":
                lo.append(s["lo"][j] * T - T // 2); hi.append(s["hi"][j] * T + T // 2)
            else:
                n = {"label": lambda: s["n"][j], "perm": lambda: s["n"][0], "bit": lambda: 2}[s["k"]]()
                lo.append(0); hi.append(n * T)
        how = r.choice(["in", "in", "edge", "out", "far", "mix"])
        for j in range(self.n):
            h = r.choice(["in", "edge", "out", "far"]) if how == "mix" else how
            if h == "in":
                v = r.randint(lo[j], hi[j])
            elif h == "edge":
                # cell boundaries: halves and wholes, one tick around
                v = r.choice([lo[j], hi[j], hi[j] - 1, lo[j] + 1, r.randint(lo[j] // 5000, hi[j] // 5000) * 5000]) + r.choice([-1, 0, 0, 1])
            elif h == "out":
                v = r.choice([lo[j] - r.randint(1, 30000), hi[j] + r.randint(0, 30000)])
            else:
                v = r.choice([-BIG, BIG, lo[j] - 50000000, hi[j] + 50000000])
            out.append(v)
        if s["k"] == "perm" and r.random() < 0.7:       # mostly distinct
            out = r.sample(range(-40000, 80000, 2500), self.n) if r.random() < .5 else [p * T for p in r.sample(range(self.n), self.n)]
        if s["k"] == "perm":
            out = [max(-BIG + j, min(BIG - j, v)) for j, v in enumerate(out)]
        return out


def real(x):
    return [float("inf") if v >= BIG else float("-inf") if v <= -BIG else v / T for v in x]


def rnd_desc(r, kind):
    n = r.randint(1, 4)
    q = lambda a, b: r.randint(a, b) * 0.25
    if kind == "float":
        lo = [q(-40, 20) for _ in range(n)]
        hi = [a + q(0, 40) for a in lo]
        return r.choice([["float", lo, hi], ["float", tuple(lo), tuple(hi)], ["float", np.array(lo), np.array(hi)]] + ([["float", lo[0], hi[0]]] if n == 1 else []))
    if kind == "int":
        lo = [r.choice([-1000, -7, -3, -1, 0, 1, 5, 99, -20]) for _ in range(n)]
        hi = [a + r.choice([0, 1, 2, 3, 5, 9]) for a in lo]
        return r.choice([["int", lo, hi], ["int", np.array(lo), np.array(hi)]] + ([["int", lo[0], hi[0]]] if n == 1 else []))
    if kind == "str":
        w = ["a", "b", "zz", "B", "", "10", "9", "auto", "xyz w", "é"]
        if n == 1 and r.random() < .5:
            return ["str", r.choice([tuple, list])(r.sample(w, r.randint(1, 5)))]
        return ["str", [r.sample(w, r.randint(2, 5)) + ([w[0]] if r.random() < 0 else []) for _ in range(n)]]
    if kind == "strdup":
        return ["str", [["b", "a", "b", "c"], ("x", "x", "y")]]
    if kind == "cat":
        w = ["a", "b", None, 1, 2.5, -3, "1", "auto", 10, 0.1]
        if n == 1 and r.random() < .5:
            return ["cat", tuple(r.sample(w, r.randint(1, 6)))]
        return ["cat", [r.sample(w, r.randint(2, 6)) for _ in range(n)]]
    if kind == "seq":
        w = [(1,), (1, 2), (2, 1), (3, 4, 5), (), ("a", "b"), (1, "x")]
        return ["seq", [r.choice([list, tuple])(x) for x in r.sample(w, r.randint(2, 6))]] + (["list"] if r.random() < .5 else [])
    if kind == "perm":
        m = r.randint(2, 7)
        w = r.choice([list(range(m)), list(range(1, m + 1)), r.sample(range(-50, 50), m), r.sample("abcdefghij", m), [x * 0.5 for x in r.sample(range(30), m)]])
        w = list(w)
        if r.random() < .5:
            r.shuffle(w)
        return ["perm", r.choice([list, tuple])(w)]
    if kind == "bin":
        return ["bin", r.randint(1, 6)]
    if kind == "bool":
        return ["bool", r.randint(1, 6)]
    tf = r.choice(["vstf_01", "vstf_02", "vstf_03", "vstf_04", "sstf_01", "sstf_02", "sstf_03", "sstf_04"])
    if kind == "tbin":
        return ["tbin", r.randint(1, 5), tf, r.random() < .5] + r.choice([[], [-4., 2.], [0.5, 3.], [-1., 6.]])
    return ["tbool", r.randint(1, 5), tf, True] + r.choice([[], [-4., 2.], [-1., 6.]])


KINDS = ["float", "int", "str", "cat", "seq", "perm", "bin", "bool", "tbin", "tbool"]
TF = {"vstf_01": lambda x: abs(math.erf(math.sqrt(math.pi) / 2 * x)), "vstf_02": lambda x: abs(math.tanh(x)), "vstf_03": lambda x: abs(x / math.sqrt(1 + x * x)),
      "vstf_04": lambda x: abs(2 / math.pi * math.atan(math.pi / 2 * x)), "sstf_01": lambda x: 1 / (1 + math.exp(-2 * x)), "sstf_02": lambda x: 1 / (1 + math.exp(-x)),
      "sstf_03": lambda x: 1 / (1 + math.exp(-x / 3)), "sstf_04": lambda x: 1 / (1 + math.exp(-x / 2))}


class Line:
    def __init__(self, tid, vs):
        self.d = {"id": tid, "vars": [v.spec for v in vs], "calls": []}

    def call(self, op, f, what=""):
        c = {"op": op, "x": [], "y": [], "z": [], "what": what, "err": False}
        try:
            x, y, z = f()
            c.update(x=x, y=y, z=z)
        except Exception as e:      # noqa
            c["err"] = True
            c["what"] = f"{op} {type(e).__name__}: {e}"[:120]
        self.d["calls"].append(c)

    def raises(self, f, exc, what):
        got = "accepted"
        try:
            f()
        except exc:
            got = "raised"
        except Exception as e:      # noqa
            got = f"{type(e).__name__}"
        self.d["calls"].append({"op": "raises", "x": [], "y": [], "z": [], "what": got, "err": False})


def arr(r, xs):
    return r.choice([list, tuple, np.array, np.array])(xs)


def var_line(tid, d, r, n):
    v = V(d)
    L = Line(tid, [v])
    var = v.make()
    v.learn(var)
    for m in v.codes:
        L.call("labels", lambda: (sorted(set(m.values())) if len(set(m.values())) == len({k for k in m if k[0] != "t" or True}) or v.k == "seq" else [BAD], [], []))
    L.call("box", lambda: (ticks(var.lb), ticks(var.ub), [int(var.n_vars)]))
    for _ in range(n):
        x = v.point(r)
        a = arr(r, real(x))
        L.call("correct", lambda: (x, ticks(var.correct(a)), ticks(a)))
        x2 = v.point(r)
        b = np.array(real(x2))
        L.call("decode", lambda: (x2, v.value(var.decode(b)), ticks(b)))
        # a corrected point decodes as the point itself, and correcting again changes nothing
        if v.spec["k"] != "tbit":
            y = np.array(real(v.point(r)))
            L.call("same", lambda: (ticks(var.correct(var.correct(y))), ticks(var.correct(y)), []), "correct_twice")
            L.call("same", lambda: (v.value(var.decode(var.correct(y))), v.value(var.decode(y)), []), "decode_of_corrected")
        u, nums = v.randval(r)
        L.call("encode", lambda: (nums, ticks(var.encode(u)), []))
        if v.spec["k"] != "tbit":
            L.call("same", lambda: (v.value(var.decode(var.encode(u))), nums, []), "round_trip")
    var.seed = r.randrange(1000)

    def gen():
        g = var.generate()
        return [], (([BAD] if False else gval(v, g))), []
    m = 60 if v.spec["k"] == "float" else 160
    for _ in range(m):
        L.call("generate", gen)
    L.call("reached", lambda: ([], [], []))
    # the seed decides what is generated
    s = r.randrange(10 ** 6)
    o = v.make()
    for _ in range(r.randrange(4)):
        o.generate()

    def seq():
        var.seed = s; o.seed = s
        return flat(v, [var.generate() for _ in range(6)]), flat(v, [o.generate() for _ in range(6)]), []
    L.call("same", seq, "seed_decides_generation")
    if v.spec["k"] == "tbit":
        tfreq(L, v, var, r)
    return L.d


def tfreq(L, v, var, r):
    s = v.spec
    if not s["zeros"]:
        return
    x = [r.choice([s["lo"][j], s["hi"][j], r.randint(s["lo"][j] // 5000, s["hi"][j] // 5000) * 5000, s["hi"][j] + 30000]) for j in range(v.n)]
    var.seed = r.randrange(1000)
    tr = 4000

    def f():
        cnt = np.zeros(v.n)
        for _ in range(tr):
            cnt += np.asarray(var.correct(np.array(real(x))), dtype=float)
        ex = [int(round(tr * TF[v.d[2]](min(max(a, lo), hi) / T))) for a, lo, hi in zip(x, s["lo"], s["hi"])]
        return [int(c) for c in cnt], [tr, 200], ex
    L.call("freq", f)


def gval(v, g):
    """generate() returns values in user form"""
    if v.k == "seq":
        return v.value([g])
    if v.spec["k"] == "float":
        return [tickf(x) for x in g]
    return v.value(g)


def tickf(x):
    """generated reals are not on the grid: rounded towards the inside (a value outside by less than a tick stays outside)"""
    return math.floor(float(x) * T) if float(x) < 0 else math.ceil(float(x) * T) if abs(float(x) * T - round(float(x) * T)) < 1e-6 else int(float(x) * T)


def flat(v, gs):
    if v.spec["k"] == "float":
        return [int(np.float64(x).view(np.int64) % 2000000011 % 1000000007) for g in gs for x in g]
    return [a for g in gs for a in gval(v, g)]


def prob_line(tid, ds, r, n):
    from mealpy import Problem

    class P(Problem):
        def obj_func(self, x):
            return float(np.sum(x))
    vs = [V(d) for d in ds]
    L = Line(tid, vs)
    vars_ = [v.make(f"v{j}") for j, v in enumerate(vs)]
    for v, x in zip(vs, vars_):
        v.learn(x)
    p = P(r.choice([list, tuple])(vars_), "min", log_to=None)
    offs = np.cumsum([0] + [v.n for v in vs])

    def vals(dec):
        if list(dec) != [f"v{j}" for j in range(len(vs))]:
            return [BAD]
        out = []
        for j, v in enumerate(vs):
            e = dec[f"v{j}"]
            out += v.value([e] if v.n == 1 else e)
        return out
    L.call("box", lambda: (ticks(p.lb), ticks(p.ub), [int(p.n_dims)]))
    tb = any(v.spec["k"] == "tbit" for v in vs)
    for _ in range(n):
        x = [a for v in vs for a in v.point(r)]
        a = np.array(real(x))
        L.call("correct", lambda: (x, ticks(p.correct_solution(a)), ticks(a)))
        L.call("decode", lambda: (x, vals(p.decode_solution(a)), ticks(a)))
        us = [v.randval(r) for v in vs]
        nums = [q for _, m in us for q in m]
        L.call("encode", lambda: (nums, ticks(p.encode_solution([u for u, _ in us])), []))
        if not tb:
            L.call("same", lambda: (vals(p.decode_solution(p.encode_solution([u for u, _ in us]))), nums, []), "round_trip")
            L.call("same", lambda: (ticks(p.correct_solution(p.correct_solution(a))), ticks(p.correct_solution(a)), []), "correct_twice")
        L.call("generate_encoded", lambda: ([], [tickf(q) for q in p.generate_solution(encoded=True)], []))
        L.call("generate", lambda: ([], [q for v, g in zip(vs, p.generate_solution(encoded=False)) for q in gval(v, g)], []))
    s = r.randrange(10 ** 6)
    p2 = P([v.make(f"v{j}") for j, v in enumerate(vs)], "min", log_to=None)
    for _ in range(r.randrange(3)):
        p2.generate_solution()
    hsh = lambda l: [int(np.float64(x).view(np.int64) % 2000000011 % 1000000007) for g in l for x in g]

    def seq():
        p.set_seed(s); p2.set_seed(s)
        return hsh([p.generate_solution() for _ in range(5)]), hsh([p2.generate_solution() for _ in range(5)]), []
    L.call("same", seq, "seed_decides_generation")

    def seq2():
        p.set_seed(s)
        a = [p.correct_solution(np.full(p.n_dims, .3)) for _ in range(4)]
        p2.set_seed(s)
        return hsh(a), hsh([p2.correct_solution(np.full(p.n_dims, .3)) for _ in range(4)]), []
    L.call("same", seq2, "seed_decides_correction")
    return L.d


def reject_line(tid):
    from mealpy import BinaryVar, BoolVar, FloatVar, IntegerVar, PermutationVar, Problem, StringVar, TransferBinaryVar, TransferBoolVar, CategoricalVar, SequenceVar
    from mealpy.utils.space import LabelEncoder
    L = Line(tid, [])
    L.d["vars"] = []
    R = L.raises
    for c in (FloatVar, IntegerVar):
        R(lambda: c(lb=[1, 2], ub=[3]), ValueError, "lengths")
        R(lambda: c(lb=[1], ub=(3, 4)), ValueError, "lengths")
        R(lambda: c(lb=1, ub=[3]), TypeError, "kinds")
        R(lambda: c(lb="a", ub="b"), TypeError, "kinds")
        R(lambda: c(lb=None, ub=2), TypeError, "kinds")
    for c in (StringVar, CategoricalVar):
        R(lambda: c(valid_sets="abc"), TypeError, "kind")
        R(lambda: c(valid_sets=[["a"], ["b", "c"]]), ValueError, "one value")
        R(lambda: c(valid_sets=5), TypeError, "kind")
    R(lambda: PermutationVar(valid_set=[1]), TypeError, "one element")
    R(lambda: PermutationVar(valid_set="ab"), TypeError, "kind")
    for c in (BinaryVar, BoolVar, TransferBinaryVar, TransferBoolVar):
        for n in (0, -1, 2.0, "3", None, [2]):
            R(lambda: c(n_vars=n), ValueError, "n_vars")
    for c in (TransferBinaryVar, TransferBoolVar):
        R(lambda: c(n_vars=2, tf_func="vstf_05"), ValueError, "transfer function")
    R(lambda: SequenceVar(valid_sets=[(1, 2), (3,)]).encode((9,)), ValueError, "unknown sequence")
    R(lambda: StringVar(valid_sets=["a", "b"]).encode(["zz"]), KeyError, "unknown label")
    R(lambda: LabelEncoder().transform(["a"]), ValueError, "not fitted")
    R(lambda: LabelEncoder().inverse_transform([0]), ValueError, "not fitted")

    class P(Problem):
        def obj_func(self, x):
            return 0.
    R(lambda: P([FloatVar(), 5], "min", log_to=None), ValueError, "not a variable")
    R(lambda: P(7, "min", log_to=None), TypeError, "bounds")
    R(lambda: P("abc", "min", log_to=None), TypeError, "bounds")
    L.call("same", lambda: (LabelEncoder().fit(["b", "a", "b"]).transform(["a", "b"]), [0, 1], []), "label_encoder")
    L.call("same", lambda: ([1 if x == "unknown" else 0 for x in LabelEncoder().fit(["b", "a"]).inverse_transform([0, 1, 2, -1])], [0, 0, 1, 1], []), "unknown_index")
    return L.d


def job(a):
    k, n, seed, path = a
    r = random.Random(f"{SEED}:{seed}:{k}")
    ids = {}
    with open(path, "w") as f:
        for j in range(n):
            tid = f"{k}#{seed}.{j}"
            d = None
            try:
                if k == "problem":
                    kinds = [r.choice(KINDS) for _ in range(r.randint(2, 5))]
                    d = [rnd_desc(r, q) for q in kinds]
                    line = prob_line(tid, d, r, 6)
                elif k == "reject":
                    line = reject_line(tid)
                else:
                    d = rnd_desc(r, k)
                    line = var_line(tid, d, r, 12)
            except Exception as e:      # noqa
                line = {"id": tid, "vars": [], "calls": [{"op": "make", "x": [], "y": [], "z": [], "what": f"{type(e).__name__}: {e}"[:200], "err": True}]}
            f.write(json.dumps(line, separators=(",", ":")) + "\n")
            ids[tid] = (repr(d), [c["what"] for c in line["calls"] if c["err"]][:2], len(line["calls"]))
    return ids


MC = {"quick": [('{"float","int","label","bit","perm"}', "{1}", 5000, 8), ('{"float","int","label","bit"}', "{2}", 5000, 4), ('{"perm","bit"}', "{2}", 5000, 4)],
      "thorough": [('{"float","int","label","bit","perm"}', "{1}", 2500, 18), ('{"float","int"}', "{2}", 2500, 10), ('{"label","bit","perm"}', "{2}", 5000, 7), ('{"perm","bit"}', "{3}", 5000, 3)]}
INV = "INVARIANTS Total Box Idempotent Faithful ValidValues DecodeTotal RoundTrip Unchanged\n"


def part(rep, prop, tier):
    for kinds, dims, grid, reach in MC[tier]:
        _, _, st = tlc.run("CodecMC", f"SPECIFICATION Spec\nCONSTANTS Kinds={kinds} Dims={dims} Grid={grid} Reach={reach}\n" + INV, workers="8", xmx="6g", timeout=800)
        rep.add({"states": st["distinct"], "transitions": st["generated"], "design_states": st["distinct"]})
    d = tempfile.mkdtemp(prefix="vcodec_")
    try:
        m, n = {"quick": (2, 6), "thorough": (16, 25)}[tier]
        jobs = [(k, n, s, os.path.join(d, f"{k}.{s}.nd")) for k in KINDS + ["strdup"] for s in range(m)]
        jobs += [("problem", n, s, os.path.join(d, f"problem.{s}.nd")) for s in range(3 * m)] + [("reject", 1, 0, os.path.join(d, "reject.nd"))]
        info = {}
        for x in run_jobs(job, jobs, chunksize=1):
            info.update(x)
        import solvecheck
        sh = solvecheck.shards([j[3] for j in jobs], d)
        with open(sh[0]) as f:
            ls = [json.loads(l) for l in f]
        base = next((l for l in ls if l["vars"] and l["vars"][0]["k"] in ("float", "int") and not any(c["err"] for c in l["calls"])), None) or next(l for l in ls if l["vars"])
        can = []
        for op in ("box", "correct", "decode", "encode", "generate"):
            c = json.loads(json.dumps(base)); c["id"] = "canary#" + op
            e = next((e for e in c["calls"] if e["op"] == op), None)
            if e is None:
                continue
            e["y"][0] = BIG - 5
            can.append(c)
        with open(sh[0], "a") as f:
            for c in can:
                f.write(json.dumps(c, separators=(",", ":")) + "\n")
        outs, st = tlc.judge_many("CodecTrace", "SPECIFICATION Spec\n", sh)
        fails = [x for o in outs for x in o["fails"]]
        caught = {x["id"] for x in fails if x["id"].startswith("canary#")}
        if len(caught) != len(can) and len(caught) == len({x["id"] for x in fails}):
            raise SystemExit("machinery failure: altered calls were accepted")
        for x in fails:
            if x["id"].startswith("canary#"):
                continue
            k = x["id"].split("#")[0]
            rep.violation((k, x["clause"]), f"variable kind {k}: {x['clause']} at call {x['at']} of {x['id']}: {info[x['id']][0]} {info[x['id']][1]}", {"id": x["id"], "variable": info[x["id"]][0], "clause": x["clause"], "call": x["at"], "errors": info[x["id"]][1]})
        rep.add({"states": sum(s["distinct"] for s in st), "transitions": sum(s["generated"] for s in st), "traces_validated_against_impl": len(info),
                 "calls_judged": sum(o.get("events", 0) for o in outs), "altered_calls_rejected": len(caught)})
        rep.samples += [f"{i}: {v[0]}" for i, v in list(info.items())[:: max(1, len(info) // 8)]][:8]
    finally:
        shutil.rmtree(d, ignore_errors=True)
