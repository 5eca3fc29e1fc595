"""Runs TLC."""
import json
import os
import re
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")


class TlcError(Exception):
    pass


def run(module, cfg, env=None, timeout=600, xmx="2g", extra=(), workers="1", ok=(0,)):
    """module: name in spec/; cfg: text of the configuration. Returns (rc, output, {"generated","distinct","depth"})"""
    d = tempfile.mkdtemp(prefix="vtlc_")
    try:
        cf = os.path.join(d, "M.cfg")
        with open(cf, "w") as f:
            f.write(cfg)
        cmd = ["java", "-XX:+UseSerialGC" if workers == "1" else "-XX:+UseParallelGC", "-Xmx" + xmx, "-Xss64m", "-cp", JARS, "tlc2.TLC", "-workers", workers, "-noGenerateSpecTE",
               "-deadlock", "-metadir", os.path.join(d, "meta"), "-config", cf, *extra, os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, timeout=timeout, text=True, cwd=d)
        except subprocess.TimeoutExpired:
            raise TlcError(f"TLC timed out on {module}")
        st = {"generated": 0, "distinct": 0, "depth": 0}
        for g, n in re.findall(r"(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found", p.stdout):
            st["generated"], st["distinct"] = int(g), int(n)
        m = re.findall(r"depth of the complete state graph search is (\d+)", p.stdout)
        if m:
            st["depth"] = int(m[-1])
        if ok is not None and p.returncode not in ok:
            raise TlcError(f"TLC on {module} ended with {p.returncode}:\n{p.stdout[-3000:]}")
        return p.returncode, p.stdout, st
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_many(tasks, par=8):
    """tasks: list of keyword dictionaries for run()"""
    with ThreadPoolExecutor(par) as ex:
        return list(ex.map(lambda k: run(**k), tasks))


def judge(module, cfg, shard, timeout=800, xmx="3g", retry=True):
    """Runs a trace module over the ndjson file `shard`; returns (verdict, statistics).
    A recording that TLC cannot evaluate at all is found by bisection and reported as violating the clause `not_evaluable`."""
    try:
        _, _, st = run(module, cfg, env={"TRACE": shard, "OUT": shard + ".out"}, timeout=timeout, xmx=xmx)
        with open(shard + ".out") as f:
            return json.load(f), st
    except TlcError as e:
        if not retry or "timed out" in str(e):
            raise
        with open(shard) as f:
            lines = f.readlines()
        if len(lines) == 1:
            tid = json.loads(lines[0])["id"]
            return {"fails": [{"id": tid, "clause": "not_evaluable", "at": 0}]}, {"generated": 0, "distinct": 0, "depth": 0}
        tot, sts = {}, {"generated": 0, "distinct": 0, "depth": 0}
        for k, part in enumerate((lines[:len(lines) // 2], lines[len(lines) // 2:])):
            q = f"{shard}.{k}"
            with open(q, "w") as f:
                f.writelines(part)
            o, st = judge(module, cfg, q, timeout, xmx)
            os.unlink(q)
            for a in sts:
                sts[a] += st[a]
            for a, v in o.items():
                tot[a] = tot[a] + v if a in tot else v
        return tot, sts


def judge_many(module, cfg, shards, timeout=800, xmx="3g", par=8):
    with ThreadPoolExecutor(par) as ex:
        got = list(ex.map(lambda s: judge(module, cfg, s, timeout, xmx), shards))
    return [g[0] for g in got], [g[1] for g in got]
