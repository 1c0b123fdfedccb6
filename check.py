#!/usr/bin/env python3
"""Check one property:  python3 check.py C03 [--tier quick|thorough]

1. symbolic: every contract of the property is executed on the unmodified sources of /repo with symbolic inputs,
   and every obligation is handed to the prover (fmverif.symrun).
2. concrete: the same contracts are evaluated on the real package (real jax) - cross-check of the engine, stand-in
   for contracts outside the prover's reach, and source of replayable failing inputs (fmverif.concrun).
3. failed obligations are searched for a failing input on the real code, starting from the solver's model.
"""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("FMVERIF_REPO", "/repo")
VT = os.environ.get("FMVERIF_VT", "python3-vt")
VENV = os.environ.get("FMVERIF_VENV", "/opt/venv/bin/python")


def env(real):
    e = dict(os.environ)
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["PYTHONHASHSEED"] = "0"
    e["FMVERIF_REPO"] = REPO
    e["JAX_PLATFORMS"] = "cpu"
    e["PYTHONPATH"] = (os.path.join(REPO, "src") + ":" if real else "") + HERE
    if real:
        e["XLA_FLAGS"] = "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1"
        for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
            e[v] = "1"
    return e


def spawn(cmd, real, log):
    return subprocess.Popen(cmd, cwd=HERE, env=env(real), stdout=open(log, "w"), stderr=subprocess.STDOUT)


def wait(procs, limit):
    t0 = time.time()
    for p in procs:
        try:
            p.wait(max(1, limit - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()


def load(path):
    try:
        with open(path) as f:
            return json.load(f)
    except (OSError, ValueError):
        return None


def known_findings():
    p = os.path.join(HERE, "known_findings.json")
    d = load(p) or {"findings": []}
    return [f for f in d["findings"] if f.get("status") == "open"]


def is_known(prop, contract, variant, obligation, known):
    for f in known:
        if f["property"] == prop and f["contract"] == contract and f.get("obligation", obligation) == obligation and \
                all(json.dumps(variant.get(k)) == json.dumps(v) for k, v in f.get("variant", {}).items()):
            return f
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    thorough = a.tier == "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    prop = a.prop
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="fmverif_")
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(os.path.join(evdir, "replays"), exist_ok=True)
    ncpu = os.cpu_count() or 4
    nconc = 3 if ncpu >= 6 else 1
    jobs = max(1, ncpu - nconc)
    sym_wall = 3000 if thorough else 420
    conc_wall = 3000 if thorough else 260
    extra = ["--thorough"] if thorough else []
    so = os.path.join(tmp, "sym.json")
    procs = [spawn([VT, "-m", "fmverif.symrun", prop, "--out", so, "--jobs", str(jobs), "--wall", str(sym_wall)] + extra, False, os.path.join(tmp, "sym.log"))]
    for i in range(nconc):
        procs.append(spawn([VENV, "-m", "fmverif.concrun", prop, "--out", os.path.join(tmp, f"conc{i}.json"), "--shard", f"{i}/{nconc}",
                            "--seed", str(seed), "--wall", str(conc_wall)] + extra, True, os.path.join(tmp, f"conc{i}.log")))
    wait(procs, sym_wall + 120)
    sym = load(so)
    conc = [load(os.path.join(tmp, f"conc{i}.json")) for i in range(nconc)]
    problems = []
    if sym is None:
        problems.append("symbolic runner: " + open(os.path.join(tmp, "sym.log")).read()[-1500:])
        sym = dict(results=[], wall=0)
    for i, c in enumerate(conc):
        if c is None:
            problems.append(f"concrete runner {i}: " + open(os.path.join(tmp, f"conc{i}.log")).read()[-1500:])
    cres = [r for c in conc if c for r in c["results"]]
    known = known_findings()
    violations, knownhits = [], []

    def report(contract, variant, vi, obligation, detail, kind, rec, no_input):
        f = is_known(prop, contract, variant, obligation, known)
        if f:
            knownhits.append(f)
            return
        violations.append(dict(property=prop, contract=contract, variant=variant, variant_index=vi, obligation=obligation,
                               detail=detail, kind=kind, no_input=no_input, **rec))

    failing_variants = set()
    for r in cres:
        if r["fail"]:
            f = r["fail"]
            failing_variants.add((r["contract"], r["variant_index"]))
            report(r["contract"], r["variant"], r["variant_index"], f["obligation"], f["detail"], "contract violated on the real code",
                   dict(sample_seed=f["sample_seed"], style=f["style"], hints=f["hints"], use_vals=f["use_vals"], inputs=f["inputs"]), False)
    # failed obligations
    focus = []
    failed = {}
    for r in sym["results"]:
        bad = [o for o in r["obligations"] if o["status"] == "failed"]
        if bad:
            failed[(r["contract"], r["vi"], r["ci"])] = (r, bad)
    conc_key = {(r["contract"], r["variant_index"]): r for r in cres}
    for (ck, vi, ci), (r, bad) in failed.items():
        if (ck, vi) in failing_variants:
            continue
        hints, seen = [], set()
        for o in bad:
            if o["hints"]:
                s = json.dumps(o["hints"], sort_keys=True)
                if s not in seen:
                    seen.add(s)
                    hints.append(o["hints"])
        focus.append(dict(contract=ck, variant_index=vi, hints=hints))
    have_input = bool(violations)
    if focus and not have_input:
        ff = os.path.join(tmp, "focus.json")
        json.dump(focus[:48], open(ff, "w"))
        n = min(ncpu, len(focus), 8)
        ps = [spawn([VENV, "-m", "fmverif.concrun", prop, "--focus", ff, "--out", os.path.join(tmp, f"foc{i}.json"), "--shard", f"{i}/{n}",
                     "--seed", str(seed), "--wall", "150"], True, os.path.join(tmp, f"foc{i}.log")) for i in range(n)]
        wait(ps, 240)
        fres = [r for i in range(n) for r in (load(os.path.join(tmp, f"foc{i}.json")) or {"results": []})["results"]]
        for r in fres:
            if r["fail"]:
                f = r["fail"]
                failing_variants.add((r["contract"], r["variant_index"]))
                report(r["contract"], r["variant"], r["variant_index"], f["obligation"], f["detail"],
                       "failed proof obligation, counterexample replayed on the real code",
                       dict(sample_seed=f["sample_seed"], style=f["style"], hints=f["hints"], use_vals=f["use_vals"], inputs=f["inputs"]), False)
    for (ck, vi, ci), (r, bad) in failed.items():
        if (ck, vi) in failing_variants:
            continue
        o = bad[0]
        report(ck, r["variant"], vi, o["name"], o["detail"], "failed proof obligation",
               dict(method=o["method"], hints=o["hints"], all_failed=[(x["name"], x["method"], x["detail"]) for x in bad][:8]), True)
    violations.sort(key=lambda v: v["no_input"])
    # evidence ------------------------------------------------------------------------------------------------
    obl = [o for r in sym["results"] for o in r["obligations"]]
    done = [o for o in obl if o["status"] == "proved"]
    methods = {}
    for o in done:
        for m in (o["method"] or "?").split(","):
            methods[m] = methods.get(m, 0) + 1
    und = [dict(contract=r["contract"], variant=r["variant"], reason=r["reason"] or "obligation undecided: " + ", ".join(o["name"] for o in r["obligations"] if o["status"] == "undecided"))
           for r in sym["results"] if r["status"] != "ok" or any(o["status"] == "undecided" for o in r["obligations"])]
    symkeys = {r["contract"] for r in sym["results"]}
    bounded = sorted({r["contract"] for r in cres} - symkeys)
    funcs = sorted({f for r in sym["results"] if r["status"] == "ok" and r["obligations"] and all(o["status"] == "proved" for o in r["obligations"]) for f in r.get("funcs", [])})
    trusted = load(os.path.join(HERE, "trusted.json")) or {}
    gone = [dict(contract=r["contract"], variant=r["variant"], reason=r["gone"]) for r in cres if r["gone"]]
    level = (load(os.path.join(HERE, "levels.json")) or {}).get(prop, "proof")
    ev = dict(property=prop, tier="thorough" if thorough else "quick", seed=seed, level=level,
              coverage=dict(obligations=len(obl), discharged=len(done), checker_cmd=f"python3-vt -m fmverif.symrun {prop}",
                            trusted_base=trusted.get("base", []) + trusted.get(prop, []),
                            functions_under_contract=funcs,
                            contracts=sorted(symkeys), contract_variants=len(sym["results"]),
                            paths=sum(r["paths"] for r in sym["results"]),
                            discharged_by=methods,
                            z3_queries=sum(r["z3_queries"] for r in sym["results"]),
                            solver_time_s=round(sum(r["z3_time"] for r in sym["results"]), 2),
                            prover_time_s=round(sum(r["wall"] for r in sym["results"]), 2),
                            undecided=und, bounded_contracts=bounded,
                            bounded_evaluations=sum(r["ok"] for r in cres if r["contract"] in bounded),
                            concrete_crosscheck_evaluations=sum(r["ok"] for r in cres),
                            concrete_crosscheck_assertions=sum(r["checks"] for r in cres),
                            interface_gone=gone,
                            evaluations=sum(r["ok"] + r["skip"] for r in cres),
                            distinct_nontrivial=sum(r["ok"] for r in cres),
                            rule="a concrete evaluation is one contract variant on one generated input that satisfies its precondition and reaches at least one obligation",
                            samples=[dict(contract=r["contract"], variant=r["variant"], obligations=[(o["name"], o["status"], o["method"]) for o in r["obligations"]][:6]) for r in sym["results"][:3]] or
                                    [dict(contract=r["contract"], variant=r["variant"], evaluations=r["ok"]) for r in cres[:3]],
                            explanation="obligations generated by executing the unmodified /repo sources on symbolic arrays; see DESIGN.md"),
              assumptions=trusted.get("assumptions", []) + trusted.get(prop + "_assumptions", []),
              wall_s=round(time.time() - t0, 2), violations=len(violations))
    if problems:
        ev["coverage"]["problems"] = problems
    with open(os.path.join(evdir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=repr)
    for f in {json.dumps(k, sort_keys=True) for k in knownhits}:
        f = json.loads(f)
        print(f"KNOWN-FINDING: property={prop} {f['what']}")
    print(f"{prop}: {len(done)}/{len(obl)} obligations discharged over {len(sym['results'])} contract variants, "
          f"{len(und)} undecided, {sum(r['ok'] for r in cres)} concrete evaluations, {len(bounded)} bounded contracts, {time.time() - t0:.0f} s")
    for u in und[:20]:
        print("  undecided:", u["contract"], u["variant"], u["reason"][:200])
    rc = 0
    if violations:
        v = violations[0]
        path = os.path.join(evdir, "replays", f"{prop}.json")
        doc = dict(v, all_violations=[dict(contract=x["contract"], variant=x["variant"], obligation=x["obligation"], detail=x["detail"], no_input=x["no_input"]) for x in violations][:40],
                   replay_cmd=f"cd {HERE} && PYTHONPATH={REPO}/src:{HERE} {VENV} -m fmverif.concrun {prop} --replay {path}" if not v["no_input"] else
                   f"cd {HERE} && python3-vt -m fmverif.symrun {prop} --only {v['contract'].split('.', 1)[1]} --variant {v['variant_index']} --jobs 1 -v")
        with open(path, "w") as f:
            json.dump(doc, f, indent=1, default=repr)
        for x in violations[:6]:
            print(f"  {x['contract']} {x['variant']} obligation '{x['obligation']}' [{x['kind']}]: {str(x['detail'])[:400]}")
        print(f"VIOLATION property={prop} replay={path}" + (" no-failing-input-found" if v["no_input"] else ""))
        rc = 1
    elif problems:
        print("\n".join(problems))
        rc = 2
    elif not obl and not cres:
        print("no obligations generated")
        rc = 2
    if not a.keep:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


if __name__ == "__main__":
    main()
