"""Writes MANIFEST.json from registry.py (run by hand after editing the registry)."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from registry import PROPS, NA
ids = [json.loads(l)["id"] for l in open(H + "/properties.jsonl")]
checks = []
for i in ids:
    if i not in PROPS:
        continue
    p = PROPS[i]
    kani = p.get("kind") == "kani"
    checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i, evidence_file="evidence/%s.json" % i,
        technique="bounded model checking of the Rust source with Kani (CBMC + SAT)" if kani else "symbolic execution of the compiled LLVM IR of the real source, every assertion decided by SMT (Z3, cvc5) over all values within the bounds; counterexamples replayed natively",
        level="model_checking",
        level_note="Holds for all inputs within: " + p["bounds"] + ". Trusts: " + "; ".join(p.get("assumptions", []) or ["the compiler front end and the symbolic executor"]) + "."))
na = [dict(property=i, reason=NA.get(i, "check not built yet")) for i in ids if i not in PROPS]
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na), open(H + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
