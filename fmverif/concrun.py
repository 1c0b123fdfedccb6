"""Concrete runner (real jax): /opt/venv/bin/python -m fmverif.concrun PROP --out FILE [--shard i/n] [--seed s]

Normal mode: every contract variant is evaluated on `samples` generated inputs.
Focus mode (--focus FILE): contract variants with failed proof obligations are searched for a failing input,
starting from the solver's hints.
Replay mode (--replay FILE): re-runs one recorded failing sample.
"""
from __future__ import annotations
import argparse
import json
import os
import sys
import time
os.environ.setdefault("JAX_PLATFORMS", "cpu")


def jsonable(v):
    import numpy as onp
    if isinstance(v, onp.ndarray):
        if onp.iscomplexobj(v):
            return {"re": v.real.tolist(), "im": v.imag.tolist()}
        return v.tolist()
    if isinstance(v, (int, float, str, bool)) or v is None:
        return v
    return repr(v)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--out")
    ap.add_argument("--shard", default="0/1")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--samples", type=int, default=None)
    ap.add_argument("--focus")
    ap.add_argument("--replay")
    ap.add_argument("--only", default="")
    ap.add_argument("--variant", type=int, default=None)
    ap.add_argument("--thorough", action="store_true")
    ap.add_argument("--wall", type=float, default=300)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    import jax
    jax.config.update("jax_enable_x64", True)
    import warnings
    warnings.filterwarnings("ignore")
    from . import registry, conckit
    mods = conckit.load_mods()
    registry.load_contracts()
    t0 = time.time()
    if a.replay:
        rp = json.load(open(a.replay))
        cs = [c for c in registry.CONTRACTS if c.key == rp["contract"]]
        c = cs[0]
        st, detail, k = conckit.run_sample(c, c.variants[rp["variant_index"]], mods, rp["sample_seed"], rp["style"], rp.get("hints"), rp.get("use_vals", False))
        print("replay:", st, detail)
        sys.exit(1 if st == "fail" else 0)
    i, n = map(int, a.shard.split("/"))
    res = []

    def one(c, vi, plan, focus=False):
        v = c.variants[vi]
        rec = dict(contract=c.key, variant=v, variant_index=vi, ok=0, skip=0, checks=0, fail=None, gone=None)
        for seed, style, hints, use_vals in plan:
            if time.time() - t0 > a.wall:
                rec["timeout"] = True
                break
            st, detail, k = conckit.run_sample(c, v, mods, seed, style, hints, use_vals)
            rec["checks"] += k.count
            if st == "ok":
                rec["ok"] += 1
            elif st == "skip":
                rec["skip"] += 1
            elif st == "gone":
                rec["gone"] = detail
                break
            else:
                rec["fail"] = dict(obligation=detail[0], detail=detail[1], sample_seed=seed, style=style, hints=hints, use_vals=use_vals,
                                   inputs={kk: jsonable(vv) for kk, vv in k.inputs.items()})
                break
        res.append(rec)
        if a.v:
            print(rec["contract"], v, "ok", rec["ok"], "skip", rec["skip"], "checks", rec["checks"], "FAIL" if rec["fail"] else "", (rec["fail"] or {}).get("obligation", ""), (rec["fail"] or {}).get("detail", ""), rec["gone"] or "", flush=True)

    if a.focus:
        foc = json.load(open(a.focus))
        byk = {c.key: c for c in registry.CONTRACTS}
        for fi, f in enumerate(foc):
            if fi % n != i:
                continue
            c = byk[f["contract"]]
            if not c.conc:
                continue
            plan = []
            for h in f["hints"][:4]:
                for s in range(3):
                    plan.append(((a.seed, "h", s), "normal", h, True))
                    plan.append(((a.seed, "h", s), "normal", h, False))
                plan.append(((a.seed, "h", 9), "special", h, True))
            for s in range(24):
                plan.append(((a.seed, "f", s), ("normal", "special", "normal", "zero")[s % 4], None, False))
            one(c, f["variant_index"], plan, True)
    else:
        items = []
        for c in registry.CONTRACTS:
            if a.prop != "all" and c.prop != a.prop:
                continue
            if not c.conc or (c.thorough_only and not a.thorough):
                continue
            if a.only and a.only not in c.name:
                continue
            for vi in range(len(c.variants)):
                if a.variant is not None and vi != a.variant:
                    continue
                items.append((c, vi))
        for ii, (c, vi) in enumerate(items):
            if ii % n != i:
                continue
            ns = a.samples or c.samples * (5 if a.thorough else 1)
            plan = [((a.seed, s), ("normal", "special", "normal", "zero")[s % 4], None, False) for s in range(ns)]
            one(c, vi, plan)
    out = dict(results=res, wall=time.time() - t0)
    if a.out:
        with open(a.out, "w") as f:
            json.dump(out, f, default=repr)
    print("concrun wall", round(time.time() - t0, 1), "variants", len(res), "fail", sum(r["fail"] is not None for r in res))


if __name__ == "__main__":
    main()
