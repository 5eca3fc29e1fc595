"""Recorder: runs a real mealpy optimizer under a configuration and records what is observable.

Nothing in /repo is instrumented: the recorder only uses the public surface (a Problem subclass that logs every
obj_func call, a wrapper put on the instance's public evolve(epoch) method, and the public attributes
pop / g_best / history / nfe_counter).  The result ("raw record") is a plain picklable dict; `to_trace` turns one
or several raw records into the integer-only trace the TLA+ specifications read.
"""
import os
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("TQDM_DISABLE", "1")
os.environ.setdefault("MPLBACKEND", "Agg")
import concurrent.futures
import hashlib
import inspect
import json
import math
import queue
import random
import signal
import subprocess
import sys
import threading
import time
import warnings

warnings.filterwarnings("ignore")
import logging
logging.disable(logging.CRITICAL)

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
import numpy as np
import mealpy
from mealpy import (FloatVar, IntegerVar, StringVar, BinaryVar, BoolVar, PermutationVar, CategoricalVar, SequenceVar,
                    TransferBinaryVar, TransferBoolVar, Problem)
from mealpy.optimizer import Optimizer
from mealpy.utils.agent import Agent

assert os.path.realpath(mealpy.__file__).startswith(REPO + "/"), mealpy.__file__


def classes():
    return mealpy.get_all_optimizers(verbose=False)


# ------------------------------------------------------------------ objective functions
def _v(x):
    return np.asarray(x, dtype=float)


def _coef(n):
    return np.array([((i * 7) % 5) - 2 + 0.25 * (i + 1) for i in range(n)])


def o_sphere(x):
    x = _v(x); return float(np.sum((x - 1.3) ** 2))


def o_shift(x):
    x = _v(x); return float(np.sum((x - np.arange(len(x)) * 0.37 + 0.61) ** 2))


def o_linear(x):
    x = _v(x); return float(np.dot(x, _coef(len(x))))


def o_rastrigin(x):
    x = _v(x); return float(np.sum((x - 0.7) ** 2 - 6 * np.cos(2 * np.pi * (x - 0.7)) + 6))


def o_asym(x):      # no two coordinates and no two signs are alike
    x = _v(x); i = np.arange(len(x)); return float(np.sum((1 + .37 * i) * (x - .3 - .113 * i) ** 2))


def o_asin(x):
    x = _v(x); i = np.arange(len(x)); return o_asym(x) + .37 * float(np.sum((1 + .37 * i) * np.sin(3 * x)))


def o_plateau(x):
    x = _v(x); return float(np.floor(np.sum(np.abs(x - 1.3)) / 4.))


def o_const(x):
    return 3.0


def o_zero(x):
    return 0.0


def o_neg(x):
    return o_shift(x) - 1.0e4


def o_tiny(x):
    return o_shift(x) * 1e-13


def o_offset(x):     # tiny differences on a large level
    return o_shift(x) * 2. ** -30 + 5.


def o_huge(x):
    return o_shift(x) * 1e13


def o_int(x):
    x = _v(x); return int(np.floor(np.sum(np.abs(x - 0.4)) * 2))


def o_npfloat(x):
    return np.float64(o_rastrigin(x))


def o_list1(x):
    return [o_sphere(x)]


def o_nd1(x):
    return np.array([o_linear(x)])


def o_multi2(x):     # integer objectives: the weighted sum is exact
    x = _v(x); return (float(np.floor(np.sum(np.abs(x - 1.3)) * 3)), float(np.floor(np.sum(np.abs(x + 2.1)) * 2)))


def o_multi3(x):
    x = _v(x)
    return [float(np.floor(np.sum(np.abs(x - 1.3)) * 3)), float(-np.floor(np.max(np.abs(x)) * 5)), float(np.floor(np.sum(x)))]


def o_multi3nd(x):
    return np.array(o_multi3(x))


_BUF = {}


def _buffer(name, v):      # one array object per objective function, overwritten at every call
    b = _BUF.setdefault(name, np.zeros(len(v)))
    b[:] = v
    return b


def o_nd1buf(x):
    return _buffer("nd1", o_nd1(x))


def o_multi3buf(x):
    return _buffer("multi3", o_multi3(x))


OBJ = {k[2:]: v for k, v in list(globals().items()) if k.startswith("o_")}

# objectives without symmetries, of either sign, and so large that small additive constants vanish
for _k in ("asym", "asin"):
    for _n, _o, _s in (("pos", 50., 1.), ("neg", -5000., 1.), ("mix", -37.3, 1.), ("huge", 50., 1e17)):
        OBJ[f"{_k}_{_n}"] = (lambda f, o, s: lambda x: (f(x) + o) * s)(OBJ[_k], _o, _s)
for _k in ["sphere", "shift", "linear", "rastrigin"] + [k for k in OBJ if k[:4] in ("asym", "asin")]:
    OBJ["minus_" + _k] = (lambda f: lambda x: -f(x))(OBJ[_k])
MULTI = {"multi2": 2, "multi3": 3, "multi3nd": 3, "multi3buf": 3}


# ------------------------------------------------------------------ variables
def make_var(d):
    k = d[0]
    if k == "float":
        return FloatVar(lb=d[1], ub=d[2], name=d[3] if len(d) > 3 else "float")
    if k == "int":
        return IntegerVar(lb=d[1], ub=d[2], name=d[3] if len(d) > 3 else "integer")
    if k == "str":
        return StringVar(valid_sets=d[1], name=d[2] if len(d) > 2 else "string")
    if k == "cat":
        return CategoricalVar(valid_sets=d[1], name=d[2] if len(d) > 2 else "categorical")
    if k == "seq":
        return SequenceVar(valid_sets=d[1], return_type=(list if len(d) > 2 and d[2] == "list" else tuple), name="sequence")
    if k == "perm":
        return PermutationVar(valid_set=d[1], name="permutation")
    if k == "bin":
        return BinaryVar(n_vars=d[1], name="binary")
    if k == "bool":
        return BoolVar(n_vars=d[1], name="boolean")
    if k == "tbin":
        return TransferBinaryVar(n_vars=d[1], name="tf-binary", tf_func=d[2], all_zeros=d[3] if len(d) > 3 else True)
    if k == "tbool":
        return TransferBoolVar(n_vars=d[1], name="tf-boolean", tf_func=d[2])
    raise ValueError(k)


def make_bounds(desc):
    """desc: a single variable descriptor, or a list of descriptors"""
    if isinstance(desc[0], str):
        return make_var(desc)
    return [make_var(d) for d in desc]


def dom_of(desc):
    """The declared encoded domain, derived from the descriptor alone (independent of mealpy.utils.space):
    list of (lo, hi, integer?) per coordinate and the permutation blocks."""
    ds = [desc] if isinstance(desc[0], str) else desc
    dom, perms, p = [], [], 0
    for d in ds:
        k = d[0]
        if k == "float":
            lo, hi = np.ravel(d[1]), np.ravel(d[2])
            dom += [(float(a), float(b), 0) for a, b in zip(lo, hi)]
        elif k == "int":
            lo, hi = np.ravel(d[1]), np.ravel(d[2])
            dom += [(a - 0.5, b + 0.5, 0) for a, b in zip(lo, hi)]
        elif k in ("str", "cat"):
            sets = d[1] if isinstance(d[1][0], (list, tuple)) else [d[1]]
            dom += [(0., len(set(s)) - 1., 1) for s in sets]
        elif k == "seq":
            dom += [(0., len(d[1]) - 1., 1)]
        elif k == "perm":
            n = len(d[1]); perms.append((p, p + n)); dom += [(0., n - 1., 1)] * n
        elif k in ("bin", "bool"):
            dom += [(0., np.nextafter(2., 0.), 0)] * d[1]
        elif k in ("tbin", "tbool"):
            dom += [(0., 1., 1)] * d[1]
        p = len(dom)
    return dom, perms


def sol_class(x, dom, perms):
    """Sign classes of one solution: (#coords below, #above, #not finite, dimension, #not in the discrete domain)"""
    try:
        a = np.asarray(x, dtype=float).ravel()
    except Exception:
        return [0, 0, 1, -1, 1]
    n = len(a)
    if n != len(dom):
        return [0, 0, int(np.sum(~np.isfinite(a))), n, 0]
    lo = np.array([d[0] for d in dom]); hi = np.array([d[1] for d in dom]); it = np.array([d[2] for d in dom], dtype=bool)
    nf = int(np.sum(~np.isfinite(a)))
    with np.errstate(all="ignore"):
        bad = int(np.sum(it & (a != np.floor(a))))
        res = [int(np.sum(a < lo)), int(np.sum(a > hi)), nf, n, bad]
    for (s, e) in perms:
        if nf == 0 and sorted(a[s:e].tolist()) != list(range(e - s)):
            res[4] += 1
    return res


# ------------------------------------------------------------------ recording
def key(x):
    try:
        a = np.asarray(x, dtype=float).ravel() + 0.0
    except Exception:
        return b"?" + repr(x).encode()[:40]
    return a.tobytes()


class RecProblem(Problem):
    """Logs every objective call, in the calling process, or through a file when other processes evaluate."""

    def __init__(self, bounds, minmax, fname, path=None, fail_at=None, fail_with="ObjError", **kw):
        self.fname, self.path, self.fail_at, self.fail_with, self.raised = fname, path, fail_at, fail_with, None
        self.log = []           # (key, objectives tuple or None, solution)
        self.tids = set()
        self.lock = threading.Lock()
        super().__init__(bounds, minmax, **kw)

    def __getstate__(self):
        st = dict(self.__dict__)
        st["log"], st["tids"] = [], set()
        st.pop("lock", None)
        return st

    def __setstate__(self, st):
        self.__dict__.update(st)
        self.lock = threading.Lock()

    def obj_func(self, x):
        xx = np.array(x, dtype=float, copy=True) if not isinstance(x, np.ndarray) else np.array(x, copy=True)
        with self.lock:
            n = len(self.log)
            ent = [key(xx), None, xx]
            self.log.append(ent)
            self.tids.add(threading.get_ident())
        if self.fail_at is not None and (n == self.fail_at or (self.path and n >= self.fail_at)):
            if self.raised is None or self.path:
                self.raised = FAILURES[self.fail_with]("objective failed on purpose")
            raise self.raised
        v = OBJ[self.fname](xx)
        ent[1] = o = tuple(float(t) for t in np.ravel(np.asarray(v, dtype=float)))
        if self.path is not None:
            fd = os.open(self.path, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
            os.write(fd, (json.dumps([os.getpid(), np.asarray(xx, dtype=float).ravel().tolist(), list(o)]) + "\n").encode())
            os.close(fd)
        return v


class ObjError(Exception):
    pass


class ObjBaseError(BaseException):
    pass


class ObjSubError(ValueError, KeyError):
    pass


class ProgramError(subprocess.CalledProcessError):
    """an external program failed"""

    def __init__(self, text):
        super().__init__(3, text)
        self.args = (text,)


# kinds of exceptions an objective function may raise (not StopIteration: the language itself turns it into RuntimeError
# inside generators)
FAILURES = {c.__name__: c for c in (ObjError, ZeroDivisionError, OverflowError, FloatingPointError, ValueError, KeyError, IndexError, TypeError,
                                    AttributeError, RuntimeError, AssertionError, NotImplementedError, OSError, TimeoutError, MemoryError, RuntimeWarning,
                                    np.linalg.LinAlgError, KeyboardInterrupt, SystemExit, ObjBaseError, ObjSubError, ArithmeticError, LookupError, BufferError,
                                    EOFError, ImportError, ModuleNotFoundError, ConnectionError, ConnectionResetError, BrokenPipeError, FileNotFoundError,
                                    PermissionError, InterruptedError, BlockingIOError, RecursionError, UnicodeError, NameError, UnboundLocalError, ReferenceError,
                                    SystemError, UserWarning, DeprecationWarning, StopAsyncIteration, concurrent.futures.CancelledError,
                                    concurrent.futures.BrokenExecutor, queue.Empty)}
FAILURES["CalledProcessError"] = ProgramError


class RunTimeout(BaseException):
    pass


def snap_agent(a):
    if a is None:
        return None
    t = a.target
    if t is None:
        return (key(a.solution), None, None, np.array(a.solution, copy=True))
    return (key(a.solution), tuple(float(v) for v in np.ravel(t.objectives)), float(t.fitness), np.array(a.solution, copy=True))


def snap_list(l):
    return [snap_agent(a) for a in l]


class Hook:
    """Replaces the instance's evolve: takes a snapshot before (= after the bookkeeping of the previous epoch)."""

    def __init__(self, opt, rec):
        self.opt, self.rec = opt, rec

    def __getstate__(self):
        return {"opt": None, "rec": None}

    def __call__(self, epoch):
        self.rec.boundary(epoch)
        type(self.opt).evolve(self.opt, epoch)
        self.rec.after(epoch)


class Recorder:
    def __init__(self, opt, prob, light=False):
        self.opt, self.prob, self.light = opt, prob, light
        self.events = []      # one per epoch boundary
        self.n_log = 0
        self.pop_after = None
        self.fileevals = 0
        self.pids = set()

    def take_evals(self):
        if self.prob.path is None:
            new = self.prob.log[self.n_log:]
            self.n_log = len(self.prob.log)
            return new
        out = []
        if os.path.exists(self.prob.path):
            with open(self.prob.path) as f:
                lines = f.read().split("\n")
            for ln in lines[self.fileevals:]:
                if ln:
                    pid, x, o = json.loads(ln)
                    self.pids.add(pid)
                    xx = np.array(x, dtype=float)
                    out.append((key(xx), tuple(o), xx))
            self.fileevals = len([l for l in lines if l])
        return out

    def boundary(self, epoch):
        h = self.opt.history
        ev = {"epoch": epoch, "evals": self.take_evals(), "pop": snap_list(self.opt.pop), "pop_after": self.pop_after,
              "gb": snap_agent(self.opt.g_best), "nfe": int(self.opt.nfe_counter),
              "lens": [len(h.list_global_best), len(h.list_current_best), len(h.list_global_worst), len(h.list_current_worst),
                       len(h.list_epoch_time), len(h.list_global_best_fit), len(h.list_current_best_fit), len(h.list_diversity),
                       len(h.list_population)],
              "tail": [snap_agent(l[-1]) if len(l) else None for l in
                       (h.list_global_best, h.list_current_best, h.list_global_worst, h.list_current_worst)]}
        self.events.append(ev)
        self.pop_after = None

    def after(self, epoch):
        self.pop_after = snap_list(self.opt.pop)


def mkopt(cfg):
    cls = classes()[cfg["cls"]]
    if cfg.get("form") and cfg["form"].get("positional"):
        # the leading parameters without their names
        args, rest = [], dict(cfg.get("params", {}))
        for n, q in inspect.signature(cls.__init__).parameters.items():
            if n == "self":
                continue
            if n not in rest or q.kind != q.POSITIONAL_OR_KEYWORD:
                break
            args.append(rest.pop(n))
        return cls(*args, **rest)
    return cls(**cfg.get("params", {}))


def mkproblem(cfg, path=None):
    kw = {"log_to": cfg.get("log_to"), "name": cfg.get("pname", "P")}
    if cfg.get("log_file"):
        kw["log_file"] = cfg["log_file"]
    w = cfg.get("weights")
    if w is not None and cfg.get("wform") != "omit":       # the default: every objective has weight 1
        kw["obj_weights"] = {"array": np.array, "tuple": tuple, "scalar": lambda w: w[0], "ints": lambda w: [int(x) for x in w],
                             "mixed": lambda w: [int(x) if x == int(x) else x for x in w]}.get(cfg.get("wform"), list)(w)
    if cfg.get("save_population"):
        kw["save_population"] = True
    return RecProblem(make_bounds(cfg["bounds"]), cfg.get("minmax", "min"), cfg["obj"], path=path,
                      fail_at=cfg.get("fail_at"), fail_with=cfg.get("fail_with", "ObjError"), **kw)


def _form(x, how, r):
    """the same numbers written in another way"""
    return {"list": list, "tuple": tuple, "array": np.array, "array32": lambda x: np.array(x, dtype=np.float64)}[how](np.ravel(x).tolist())


RESULT = {"float": float, "np": np.float64, "list": lambda v: [float(v)], "tuple": lambda v: (float(v),), "array": lambda v: np.array([float(v)]),
          "int": lambda v: int(v) if v == int(v) else float(v), "array2": lambda v: np.array([[float(v)]])}


def other_form(cfg, p):
    """The arguments of solve() and of the problem, written in another way (cfg["form"]); they must mean the same."""
    f = cfg["form"]
    r = random.Random(f["salt"])
    ds = [cfg["bounds"]] if isinstance(cfg["bounds"][0], str) else cfg["bounds"]
    vs = []
    for d in ds:
        d = list(d)
        if d[0] in ("float", "int"):
            how = r.choice(["list", "tuple", "array"])
            nums = [_form(x, how, r) for x in d[1:3]]
            if len(np.ravel(d[1])) == 1 and r.random() < .5:
                nums = [type(x)(x) for x in np.ravel(d[1:3]).tolist()]
            d = [d[0]] + nums + ["var%d" % r.randrange(100)]
        elif d[0] in ("str", "cat"):
            if isinstance(d[1][0], (list, tuple)):
                d = [d[0], r.choice([list, tuple])(r.choice([list, tuple])(s) for s in d[1])]
        elif d[0] == "perm":
            d = [d[0], r.choice([list, tuple])(d[1])]
        vs.append(make_var(d))
    bounds = vs[0] if len(vs) == 1 and r.random() < .4 else r.choice([list, tuple])(vs)
    if not isinstance(bounds, (list, tuple)) or r.random() < .7:
        pass
    else:
        a = np.empty(len(vs), dtype=object)
        a[:] = vs
        bounds = a
    res = RESULT[f["result"]] if f.get("result") else None
    obj = (lambda x: res(p.obj_func(x))) if res else p.obj_func
    kw = {"bounds": bounds, "minmax": cfg.get("minmax", "min"), "log_to": None, "name": "Q"}
    if cfg.get("weights") is not None:
        kw["obj_weights"] = r.choice([list, tuple, np.array])(cfg["weights"])
    if cfg.get("save_population"):
        kw["save_population"] = True
    if f["problem"] == "dict":
        return dict(kw, obj_func=obj)

    class Q(Problem):
        def obj_func(self, x):
            return obj(x)
    return Q(**kw)


def _alarm(signum, frame):
    raise RunTimeout()


def run(cfg, opt=None, prob=None, timeout=90, before_solve=None):
    """Run one solve; returns the raw record."""
    path = None
    if cfg.get("mode") == "process":
        import tempfile
        fd, path = tempfile.mkstemp(prefix="vrec_"); os.close(fd)
    raw = {"cfg": cfg, "status": "ok", "err": None}
    rec = None
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout)
    try:
        try:
            o = opt if opt is not None else mkopt(cfg)
            p = prob if prob is not None else mkproblem(cfg, path)
            if prob is not None:
                p.log = []
                p.path, p.raised = path, None
            rec = Recorder(o, p)
            o.evolve = Hook(o, rec)
            start = cfg.get("start")
            kw = {}
            if start is not None:
                kw["starting_solutions"] = start
            if before_solve:
                before_solve(o, p)
            if cfg.get("form"):
                q = other_form(cfg, p)
                keep = {k: id(v) for k, v in q.items()} if isinstance(q, dict) else None
                if cfg["form"].get("term") == "object" and cfg.get("term"):
                    from mealpy import Termination
                    term = Termination(**cfg["term"])
                else:
                    term = cfg.get("term")
                args = {"mode": cfg.get("mode", "single"), "n_workers": cfg.get("n_workers"), "termination": term, "seed": cfg.get("seed", 1), **kw}
                if cfg["form"].get("omit"):
                    args = {k: v for k, v in args.items() if not (v is None or k == "mode" and v == "single")}
                ret = o.solve(q, **args)
                raw["problem_same"] = keep is None or keep == {k: id(v) for k, v in q.items()}
            else:
                ret = o.solve(p, mode=cfg.get("mode", "single"), n_workers=cfg.get("n_workers"), termination=cfg.get("term"),
                              seed=cfg.get("seed", 1), **kw)
            raw["ret"] = snap_agent(ret)
        except RunTimeout:
            raw["status"] = "timeout"
        except BaseException as e:        # noqa
            raw["status"] = "error"
            raw["err"] = f"{type(e).__name__}: {e}"[:300]
            raw["same_exc"] = rec is not None and (e is rec.prob.raised or bool(path) and type(e) is FAILURES.get(rec.prob.fail_with) and e.args == ("objective failed on purpose",))
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
        if rec is not None:
            try:
                o = rec.opt
                o.__dict__.pop("evolve", None)
                if raw["status"] == "ok":
                    rec.boundary(-1)
                    h = o.history
                    raw["hist"] = {"gb": snap_list(h.list_global_best), "cb": snap_list(h.list_current_best),
                                   "gw": snap_list(h.list_global_worst), "cw": snap_list(h.list_current_worst),
                                   "gbf": [float(v) for v in h.list_global_best_fit],
                                   "cbf": [float(v) for v in h.list_current_best_fit],
                                   "nt": len(h.list_epoch_time), "ndiv": len(h.list_diversity),
                                   "nexpl": len(h.list_exploration), "nexploit": len(h.list_exploitation),
                                   "epoch": h.epoch, "pops": [snap_list(p) for p in h.list_population]}
                    raw["msg"] = o.termination.message if getattr(o, "termination", None) is not None else ""
                    raw["mode_used"] = o.mode
                else:
                    rec.events.append({"epoch": -2, "evals": rec.take_evals()})
            except Exception as e:    # noqa
                raw["status"] = "error"; raw["err"] = f"recorder {type(e).__name__}: {e}"[:300]
            raw["events"] = rec.events
            raw["npids"] = len(rec.pids)
            raw["opt"] = o
        else:
            raw["events"] = []
    finally:
        if path:
            try:
                os.unlink(path)
            except OSError:
                pass
    return raw
