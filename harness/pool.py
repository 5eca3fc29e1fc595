"""Runs jobs in worker processes (not daemonic: the code under test starts process pools of its own)."""
import concurrent.futures as cf
import multiprocessing as mp
import os
import sys

NW = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 2)


def _init():
    import warnings
    warnings.filterwarnings("ignore")
    try:
        import rec  # noqa  (imports mealpy)
    except Exception as e:
        sys.stderr.write(f"worker: {e}\n")
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)


def run_jobs(fn, jobs, chunksize=4, nw=None):
    """order-preserving map in worker processes"""
    if not jobs:
        return []
    with cf.ProcessPoolExecutor(nw or NW, mp_context=mp.get_context("spawn"), initializer=_init) as ex:
        return list(ex.map(fn, jobs, chunksize=chunksize))
