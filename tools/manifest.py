#!/usr/bin/env python3
# writes MANIFEST.json from properties.jsonl; NA lists what is not claimed
import json
NA = {}
import sys
try:
    NA = json.load(open('/verif/tools/na.json'))
except FileNotFoundError:
    pass
props = [json.loads(l) for l in open('/verif/properties.jsonl') if l.strip()]
m = {"version": 1, "setup_cmd": "./build.sh", "checks": [], "not_applicable": []}
for p in props:
    i = p['id']
    if i in NA:
        m["not_applicable"].append({"property": i, "reason": NA[i]})
        continue
    m["checks"].append({
        "property": i,
        "quick_cmd": f"./check.sh {i} quick",
        "thorough_cmd": f"./check.sh {i} thorough",
        "technique": "symbolic execution of the Go SSA of the real code, assertions decided by SMT (z3, cvc5), counterexamples replayed on the real code",
        "level": "model_checking",
        "level_note": "Holds for every value of the symbolic inputs within the sizes listed in the evidence (harnesses_and_bounds). Trusted: the SSA encoder and its library models (hashes and PBKDF2 as uninterpreted functions, the secp256k1 group as scalars modulo n, Base58 as a bijection), the solvers; path models are replayed on the real code to validate the encoding."
    })
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(m["checks"]), "checks")
