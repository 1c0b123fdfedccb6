"""Symbolic runner: python3-vt -m fmverif.symrun PROP --out FILE [--jobs N] [--budget S] [--only substr]"""
from __future__ import annotations
import argparse
import json
import os
import sys
import time
import multiprocessing as mp

sys.setrecursionlimit(20000)


def work(args):
    ci, vi, budget = args
    from . import registry, loader, symkit
    global _STATE
    try:
        _STATE
    except NameError:
        mods = loader.load()
        registry.load_contracts()
        _STATE = mods
    c = registry.CONTRACTS[ci]
    try:
        r = symkit.run_variant(c, c.variants[vi], _STATE, time.time() + budget)
    except MemoryError:
        r = dict(contract=c.key, variant=c.variants[vi], status="undecided", reason="memory", paths=0, obligations=[], wall=0, z3_queries=0, z3_time=0)
    r["funcs"] = list(c.funcs)
    r["ci"], r["vi"] = ci, vi
    return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--out")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--budget", type=float, default=None)
    ap.add_argument("--only", default="")
    ap.add_argument("--variant", type=int, default=None)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--thorough", action="store_true")
    ap.add_argument("--wall", type=float, default=600)
    a = ap.parse_args()
    from . import registry
    registry.load_contracts()
    tasks = []
    for ci, c in enumerate(registry.CONTRACTS):
        if a.prop != "all" and c.prop != a.prop:
            continue
        if not c.sym or (c.thorough_only and not a.thorough):
            continue
        if a.only and a.only not in c.name:
            continue
        for vi in range(len(c.variants)):
            if a.variant is not None and vi != a.variant:
                continue
            tasks.append((ci, vi, (a.budget or c.budget) * (3 if a.thorough else 1)))
    t0 = time.time()
    if a.jobs == 1:
        res = [work(t) for t in tasks]
    else:
        ctx = mp.get_context("fork")
        with ctx.Pool(min(a.jobs, max(1, len(tasks))), maxtasksperchild=12) as pool:
            pend = [(t, pool.apply_async(work, (t,))) for t in tasks]
            res = []
            for t, p in pend:
                left = max(1.0, a.wall - (time.time() - t0))
                try:
                    res.append(p.get(timeout=left))
                except mp.TimeoutError:
                    c = registry.CONTRACTS[t[0]]
                    res.append(dict(contract=c.key, variant=c.variants[t[1]], status="undecided", reason="wall-clock budget",
                                    paths=0, obligations=[], wall=0, z3_queries=0, z3_time=0, funcs=list(c.funcs), ci=t[0], vi=t[1]))
            pool.terminate()
    from . import loader
    out = dict(results=res, wall=time.time() - t0)
    if a.out:
        with open(a.out, "w") as f:
            json.dump(out, f, default=str)
    if a.v or not a.out:
        for r in res:
            n = len(r["obligations"])
            ok = sum(o["status"] == "proved" for o in r["obligations"])
            print(f"{r['contract']} {r['variant']} {r['status']} paths={r['paths']} {ok}/{n} {r['wall']:.1f}s {r['reason']}")
            for o in r["obligations"]:
                if o["status"] != "proved" or a.v:
                    print("    ", o["status"], o["name"], o["method"], o["detail"][:600], o["hints"] if o["status"] != "proved" else "")
        print("wall", out["wall"])


if __name__ == "__main__":
    main()
