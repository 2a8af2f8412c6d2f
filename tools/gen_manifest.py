#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the harness's entry table."""
import json, os, re, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
have = set()
for f in glob.glob(here + "/harness/src/p_*.rs"):
    have |= set(re.findall(r'^    \w+ "(C\d\d)" "q"', open(f).read(), re.M))
NOTE = ("Bounded: every path of the compiled code within the bounds listed per entry in the evidence is explored and every assertion on it decided by Z3 for all "
        "values of the symbolic inputs; outside those bounds nothing is claimed. Trusts the executor (checked on every run by replaying sampled paths natively), Z3, "
        "the independent reference evaluator in harness/src/refi.rs where one is used, and the stubs listed in the evidence (allocator, formatting, hash keys).")
m = dict(version=1, setup_cmd="python3 check.py --build",
         checks=[dict(property=p["id"], quick_cmd="python3 check.py %s quick" % p["id"], thorough_cmd="python3 check.py %s thorough" % p["id"],
                      technique="solver-based symbolic execution of the compiled LLVM IR (own executor, Z3), counterexamples replayed natively",
                      level="model_checking", level_note=NOTE) for p in props if p["id"] in have],
         not_applicable=[dict(property=p["id"], reason="check not built yet") for p in props if p["id"] not in have],
         notes="No hooks in /repo: the harness uses the public API only. See DESIGN.md.")
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks;", [x["property"] for x in m["not_applicable"]])
