#!/usr/bin/env python3
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
NA = {}
if os.path.exists(V + "/tools/not_applicable.json"):
    NA = json.load(open(V + "/tools/not_applicable.json"))
have = [i for i in ids if glob.glob("%s/harness/%s*.cpp" % (V, i)) and i not in NA]
checks = [dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
               evidence_file="evidence/%s.json" % i,
               technique="symbolic execution of the LLVM IR of the real templates, every assertion discharged by z3 (or exact polynomial normal form), counterexamples replayed natively",
               level="model_checking",
               level_note="Holds for every value of the symbolic inputs within the sizes and step counts listed per entry in the evidence; floating point is read as exact real arithmetic unless the entry says mode fp. Trusted: clang's IR generation, the executor in engine/, its libstdc++/libm models, z3, gmp.") for i in have]
na = [dict(property=i, reason=NA.get(i, "check not built yet")) for i in ids if i not in have]
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
         notes="No hooks in /repo: harnesses use the public headers. Known and fixed defects: known_findings.jsonl.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(have), "claimed;", [n["property"] for n in na])
