"""Offline tool (its output harness/variants.json is committed): finds constructor arguments to run every optimizer with.

For every optimizer class it records, through the validator the constructors use, the documented range of every
hyper-parameter for several population sizes, and keeps argument sets that the constructor accepts: a base set for
small populations and several non-default sets biased to the ends of the ranges."""
import inspect
import json
import random
import sys
import rec
from rec import classes
from mealpy.utils.validator import Validator

CALLS = []


def patch():
    for nm in ("check_int", "check_float", "check_str", "check_bool", "check_tuple_int", "check_tuple_float", "check_is_int_and_float"):
        orig = getattr(Validator, nm)

        def f(self, name, value, *a, _o=orig, _n=nm, **k):
            b = a[0] if a else k.get("bound", k.get("bounds", k.get("bound_int")))
            CALLS.append((_n, name, value, b, a[1] if len(a) > 1 else k.get("bound_float")))
            return _o(self, name, value, *a, **k)
        setattr(Validator, nm, f)


def kwargs_of(cls):
    return {k: p.default for k, p in inspect.signature(cls.__init__).parameters.items()
            if k not in ("self", "kwargs") and p.kind in (p.POSITIONAL_OR_KEYWORD, p.KEYWORD_ONLY)}


def probe(cls, kw):
    CALLS.clear()
    try:
        o = cls(**kw)
        return o, list(CALLS)
    except Exception as e:
        return e, list(CALLS)


def pick_num(r, b, integer, default):
    closed = isinstance(b, list)
    lo, hi = b
    if integer:
        lo2 = int(lo) if closed else int(lo) + 1
        hi2 = min(int(hi), 10 ** 6) if closed else min(int(hi), 10 ** 6) - 1
        if hi2 > 200:
            hi2 = max(lo2 + 1, min(hi2, max(2 * int(default or 1), lo2 + 6)))
        c = r.choice(["lo", "hi", "any", "any"])
        v = lo2 if c == "lo" else hi2 if c == "hi" else r.randint(lo2, max(lo2, hi2))
        return v
    lo = -5. if lo == float("-inf") else float(lo)
    hi = float(hi)
    if hi > 200:
        hi = max(lo + 1, 2 * abs(float(default or 1)))
    c = r.choice(["lo", "hi", "any", "any"])
    eps = (hi - lo) * 0.01
    v = lo + (0 if closed else eps) if c == "lo" else hi - (0 if closed else eps) if c == "hi" else r.uniform(lo + eps, hi - eps)
    return round(v, 4)


def make(cls, pop, seed, n=4, defaults=None):
    """argument sets valid with this population size"""
    r = random.Random(seed)
    base = kwargs_of(cls)
    kw = {"epoch": 7} if "epoch" in base else {}
    if "pop_size" in base:
        kw["pop_size"] = pop
    # repair the base set until the constructor accepts it
    for _ in range(12):
        o, calls = probe(cls, kw)
        if not isinstance(o, Exception):
            break
        k, name, value, b, b2 = calls[-1]
        if name not in base:
            return None
        if k == "check_int":
            kw[name] = pick_num(r, b, True, value)
        elif k == "check_float":
            kw[name] = pick_num(r, b, False, value)
        else:
            return None
    else:
        return None
    basekw = dict(kw)
    o, calls = probe(cls, basekw)
    spec = [c for c in calls if c[1] in base and c[1] not in ("epoch", "pop_size")]
    out = [basekw]
    tries = 0
    while len(out) < n + 1 and tries < 40:
        tries += 1
        kw = dict(basekw)
        for (k, name, value, b, b2) in spec:
            if r.random() < 0.35:
                continue
            if k == "check_int" and b is not None:
                kw[name] = pick_num(r, b, True, value)
            elif k == "check_float" and b is not None:
                kw[name] = pick_num(r, b, False, value)
            elif k == "check_str" and b is not None:
                kw[name] = r.choice(list(b))
            elif k == "check_bool":
                kw[name] = r.choice([True, False])
            elif k == "check_is_int_and_float":
                if b2 is not None and r.random() < 0.5:
                    kw[name] = pick_num(r, b2, False, value if isinstance(value, float) else 0.5)
                elif b is not None:
                    kw[name] = pick_num(r, b, True, value if isinstance(value, int) else 3)
            elif k in ("check_tuple_float", "check_tuple_int") and b is not None and len(b) == len(value):
                kw[name] = [pick_num(r, bb, k.endswith("int"), vv) for bb, vv in zip(b, value)]
        o, _ = probe(cls, kw)
        if isinstance(o, Exception) or kw in out:
            continue
        out.append(kw)
    return out


if __name__ == "__main__":
    patch()
    res = {}
    for name, cls in sorted(classes().items()):
        res[name] = {}
        for pop in (10, 13, 20):
            v = make(cls, pop, f"{name}{pop}")
            if v is None:
                print("no base for", name, pop, file=sys.stderr)
                continue
            res[name][str(pop)] = v
    json.dump(res, open("variants_raw.json", "w"))
    print(len(res), sum(len(v) for r in res.values() for v in r.values()))
