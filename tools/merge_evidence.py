#!/usr/bin/env python3
"""merge_evidence.py OUT IN...: adds up the evidence of the phases of one check."""
import json, os, sys
out, ins = sys.argv[1], [json.load(open(f)) for f in sys.argv[2:] if os.path.exists(f)]
if not ins:
    sys.exit(0)
m = ins[0]
for d in ins[1:]:
    a, b = m["coverage"], d["coverage"]
    for k in ("evaluations", "distinct_nontrivial", "fixed_cases", "known_findings_seen", "discarded", "requested_cases", "elementary_comparisons", "unreproduced_failures"):
        if k in b:
            a[k] = a.get(k, 0) + b[k]
    for k in ("slowest_case_s", "worst_error_over_tolerance"):
        a[k] = max(a.get(k, 0), b.get(k, 0))
    for k, v in b.get("labels", {}).items():
        a.setdefault("labels", {})[k] = a.get("labels", {}).get(k, 0) + v
    a["samples"] = (a.get("samples", []) + b.get("samples", []))[:10]
    m["wall_s"] += d["wall_s"]
    m["violations"] += d["violations"]
m["coverage"]["phases"] = [os.path.basename(f) for f in sys.argv[2:] if os.path.exists(f)]
json.dump(m, open(out, "w"), indent=1)
