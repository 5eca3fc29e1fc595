"""Which real runs are recorded: every optimizer class x families of configurations.

A family is a function of the class name and of a random generator seeded with (VERIF_SEED, class, family), so that
search spaces, objective shapes, directions, hyper-parameters and population sizes rotate over the classes."""
import json
import os
import random

from shapes import FEW, SHAPES

HERE = os.path.dirname(os.path.abspath(__file__))
VARIANTS = json.load(open(os.path.join(HERE, "variants.json")))
WEIGHTS2 = [[0.25, 0.75], [1.5, -0.5], [2.0, 0.25], [1.0, 1.0], [-1.0, 0.5]]
WEIGHTS3 = [[0.5, 0.25, 0.25], [1.0, -0.5, 2.0], [0.25, 1.75, -0.25]]
SINGLE = ["sphere", "shift", "linear", "rastrigin"]
TIES = ["plateau", "int", "const", "zero"]
SCALE = ["neg", "tiny", "huge", "npfloat", "list1", "nd1"]
BUFFER = ["nd1buf", "multi3buf"]      # objective functions that return the same array object at every call (not for thread mode)
DISC = ["perm6", "tbin6", "str3", "bin8", "int4", "bool5", "mix2", "tbool6"]
FAILURES = ["ObjError", "ZeroDivisionError", "OverflowError", "FloatingPointError", "ValueError", "KeyError", "IndexError", "TypeError", "AttributeError", "RuntimeError",
            "AssertionError", "NotImplementedError", "OSError", "TimeoutError", "MemoryError", "RuntimeWarning", "LinAlgError", "KeyboardInterrupt", "SystemExit", "ObjBaseError",
            "ArithmeticError", "LookupError", "BufferError", "EOFError", "ImportError", "ModuleNotFoundError", "ConnectionError", "ConnectionResetError", "BrokenPipeError",
            "FileNotFoundError", "PermissionError", "InterruptedError", "BlockingIOError", "RecursionError", "UnicodeError", "NameError", "ReferenceError", "SystemError",
            "UserWarning", "DeprecationWarning", "CancelledError", "BrokenExecutor", "Empty", "CalledProcessError", "StopAsyncIteration", "UnboundLocalError", "ObjSubError"]
# accepted arguments with which a run cannot be completed (findings, see known_findings.jsonl)
ACCEPTED = {"AdaptiveBA": [("pr_min above pr_max", {"pr_min": 0.9, "pr_max": 0.1}), ("pf_min above pf_max", {"pf_min": 5., "pf_max": 1.})],
            "OriginalILA": [("b_min above b_max", {"b_min": 0.6, "b_max": 0.4})], "OriginalOrcaOA": [("negative R0", {"R0": -2.})],
            "OriginalSquirrelSA": [("beta 0", {"beta": 0.})]}
WORKERS = min(11, (os.cpu_count() or 1) + 4)      # more threads than agents (the library bounds them by the number of processors)
CONT = ["fnarrow", "f2", "f4n", "fbig"]


CLASSES = json.load(open(os.path.join(HERE, "classes.json")))
OPTIONS = json.load(open(os.path.join(HERE, "options.json")))     # every value of every discrete hyper-parameter (mkoptions.py)
SMALL = json.load(open(os.path.join(HERE, "small.json")))         # argument sets for 5 to 9 agents (mksmall.py)
MINEPOCH = CLASSES["min_epoch"]     # some derived parameters are validated against the epoch


def params(cls, pop, vi=0, epoch=7):
    v = VARIANTS[cls].get(str(pop)) or VARIANTS[cls][min(VARIANTS[cls])]
    p = dict(v[vi % len(v)])
    if str(pop) not in VARIANTS[cls] and "pop_size" in p:
        p["pop_size"] = pop
    if "epoch" in p:
        p["epoch"] = max(epoch, MINEPOCH.get(cls, 0))
    return p


def nvar(cls, pop=10):
    return len(VARIANTS[cls].get(str(pop), []))


def few(cls, shape):
    b = FEW[shape]
    if cls in CLASSES["min_dims3"]:      # three coordinates
        b = (b if isinstance(b[0], list) else [b]) + [["float", 2., 2.] if shape in ("one_float", "one_fix") else ["int", 0, 1]]
    return b


def cfg(cls, fam, shape, obj, minmax="min", pop=10, vi=0, epoch=7, seed=1, **kw):
    if shape in ("f1", "f2") and cls in CLASSES["min_dims3"]:
        shape = "f3"
    c = {"cls": cls, "fam": fam, "shape": shape, "bounds": SHAPES.get(shape) or few(cls, shape), "obj": obj, "minmax": minmax,
         "params": params(cls, pop, vi, epoch), "seed": seed, "mode": "single"}
    c.update(kw)
    return c


def with_params(c, p, epoch):
    c["params"] = dict(p, **({"epoch": max(epoch, MINEPOCH.get(c["cls"], 0))} if "epoch" in p else {}))
    return c


def rotate(cls, names, vseed, salt):
    return names[(sum(map(ord, cls)) + 31 * vseed + salt) % len(names)]


def add_any(cls, r, out):
    """one configuration with everything drawn at random"""
    pop = r.choice([10, 13, 13, 17, 20, 30])
    o = r.choice(SINGLE + TIES + SCALE + ["offset", "multi2", "multi3", "multi3nd"])
    k = {"weights": r.choice(WEIGHTS2 if o == "multi2" else WEIGHTS3), "wform": r.choice(["array", "tuple", None])} if o.startswith("multi") else {}
    out.setdefault("any", []).append(cfg(cls, "any", r.choice(sorted(SHAPES)), o, r.choice(["min", "max"]), pop=pop, vi=r.randrange(max(1, nvar(cls, pop))), epoch=r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9]),
                                         mode=r.choice(["single", "single", "swarm", "thread"]), seed=r.randrange(1, 10 ** 6), save_population=r.random() < .3, **k))


def families(cls, vseed, tier):
    """family name -> list of configurations"""
    r = random.Random(f"{vseed}:{cls}")
    mm = lambda: r.choice(["min", "max"])
    sd = lambda: r.randrange(1, 10 ** 6)
    out = {}

    def add(fam, *a, **k):
        if k.get("vi", 0) >= max(1, nvar(cls, k.get("pop", 10))):
            return
        out.setdefault(fam, []).append(cfg(cls, fam, *a, seed=sd(), **k))
    n = 1 if tier == "quick" else 4
    for j in range(n):
        add("float", "f5", r.choice(SINGLE), "min", epoch=7, save_population=True)
        add("float", "f3", r.choice(SINGLE), "max", pop=13, epoch=6)
        add("mixed", "mix", r.choice(SINGLE + TIES), mm(), epoch=5)
        for i in range(1 if tier == "quick" else 2):
            add("discrete", rotate(cls, DISC, vseed, 5 * i + j), r.choice(["linear", "shift"]), mm(), epoch=6)
        add("range", rotate(cls, CONT, vseed, j), r.choice(SINGLE), mm(), epoch=6)
        add("ties", "f3", r.choice(TIES), "max", epoch=8, save_population=True)
        add("ties", "int4", r.choice(TIES), "min", pop=13, epoch=6)
        add("scale", "f3", r.choice(SCALE), mm(), epoch=5)
        add("scale", r.choice(["f3", "f5", "mix"]), "nd1buf", mm(), epoch=4, mode=r.choice(["single", "swarm"]))
        for i, o in enumerate(["tiny", "offset"]):
            add("tiny", r.choice(["f3", "f5"]), o, mm(), epoch=6, vi=i, mode=r.choice(["single", "swarm"]))
        add("long", "f2", r.choice(["plateau", "shift"]), mm(), epoch=r.choice([30, 30, 30, 105] if tier == "quick" else [40, 60, 60, 130]), save_population=r.random() < 0.5)
        add("big", "f5", r.choice(SINGLE), mm(), pop=50, epoch=3, mode=r.choice(["single", "single", "swarm"]))
        add("wide", "f17", r.choice(SINGLE), mm(), pop=20, epoch=5)
        w = r.choice(WEIGHTS2)
        add("multi", "f5", "multi2", mm(), epoch=6, weights=w)
        w3 = r.choice(WEIGHTS3)
        add("multi", "f3", r.choice(["multi3", "multi3nd"]), mm(), epoch=5, weights=w3)
        add("multi", "f3", "multi3buf", mm(), epoch=4, weights=r.choice(WEIGHTS3), mode=r.choice(["single", "swarm"]))
        k = r.choice(["omit", "array", "tuple", "ints", "mixed", "mixed"])
        add("multi2", r.choice(["f5", "mix", "f3"]), r.choice(["multi3", "multi3nd"]), mm(), epoch=5, weights=[1.] * 3 if k == "omit" else [2., -1., 3.] if k == "ints" else r.choice([[1., .5, .25], [-1., .5, 1.75], [0., .25, 1.5], [2., .5, -.25]]) if k == "mixed" else r.choice(WEIGHTS3), wform=k, mode=r.choice(["single", "swarm", "thread"]))
        add("multi2", r.choice(["f5", "int4"]), r.choice(SINGLE + ["list1", "nd1"]), mm(), epoch=4, vi=1, weights=r.choice([[2.], [-1.], [.25]]), wform=r.choice(["scalar", "array", None]))
        for vi in range(1, 3 if tier == "quick" else 5):
            add("params", r.choice(["f5", "f3", "f17"]), r.choice(SINGLE), mm(), vi=vi, epoch=6)
        for i, p in enumerate(OPTIONS.get(cls, [])):
            out.setdefault("options", []).append(with_params(cfg(cls, "options", r.choice(["f5", "f3", "mix", "f17"]), r.choice(SINGLE), mm(), seed=sd(), mode=r.choice(["single", "single", "swarm"])), p, r.choice([5, 8])))
        add("thread", "f5", r.choice(SINGLE), mm(), epoch=5, mode="thread", n_workers=r.choice([None, 2, 3, 5, WORKERS]))
        add("swarm", r.choice(["f5", "mix"]), r.choice(SINGLE), mm(), epoch=6, mode="swarm")
        for _ in range(3 if tier == "quick" else 12):
            add_any(cls, r, out)
        for i, p in enumerate(r.sample(SMALL.get(cls, []), min(2 if tier == "quick" else 6, len(SMALL.get(cls, []))))):
            out.setdefault("small", []).append(with_params(cfg(cls, "small", r.choice(["f5", "f3", "mix", "int4"]), r.choice(SINGLE + TIES), mm(), seed=sd(), mode=r.choice(["single", "single", "swarm", "thread"])), p, 9))
        for shape in r.sample(sorted(FEW), 1 if tier == "quick" else 4):
            add("few", shape, r.choice(SINGLE + TIES), mm(), vi=r.randrange(3), epoch=r.choice([20, 30]), mode=r.choice(["single", "swarm"]))
        for fam, p in ACCEPTED.get(cls, []) if j == 0 else []:
            add(fam, "f2" if fam == "beta 0" else "f5", "linear" if fam == "beta 0" else "shift", "max", epoch=12)
            out[fam][-1]["params"].update(p)
        modes = ["single", "swarm", "thread"]
        r.shuffle(modes)
        for form in (["list", "array", "arrays"] if tier == "quick" else ["list", "array", "arrays", "tuple"]):
            add("start", r.choice(["f5", "mix", "f3", "int4"]) if form != "list" else "f5", r.choice(SINGLE), mm(), epoch=3, start_form=form,
                mode=modes.pop() if modes else r.choice(["single", "swarm", "thread"]))
        for kind in (["fe", "es", "mg", "mix"] if tier == "quick" else ["fe", "es", "mg", "mix", "mix"]):
            t = {}
            if kind in ("fe", "mix"):
                t["max_fe"] = r.choice([10, 10, 11, 25, 33, 50, 61])
            if kind in ("mg", "mix"):
                t["max_epoch"] = r.choice([1, 2, 4, 7, 9])
            if kind in ("es", "mix"):
                t["max_early_stop"] = r.choice([1, 2, 3, 5])
                if r.random() < .6:
                    t["epsilon"] = r.choice([0, 0., .5, 1., 1., 1.5, 2.])
            add("term", r.choice(["f5", "f3"]) if kind in ("fe", "mg") else "int4", r.choice(SINGLE) if kind in ("fe", "mg") else r.choice(["int", "const", "plateau", "int"]), mm(),
                epoch=r.choice([3, 7, 8]) if kind in ("fe", "mg") else 12, term=t, mode=r.choice(["single", "single", "swarm", "thread"]))
        for m in ("single", "swarm", "thread", "single"):
            add("fail", r.choice(["f5", "mix", "f3"]), r.choice(SINGLE), mm(), epoch=4, mode=m,
                fail_at=r.choice([0, 3, 9, 10, 11, 14, 19, 20, 23, 31, 37]), fail_with=r.choice(FAILURES))
    return out
