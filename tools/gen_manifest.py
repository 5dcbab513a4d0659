#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, R)
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        kinds = []
        for s in c["stages"]:
            k = s.get("kind", "native")
            if k not in kinds:
                kinds.append(k)
        names = dict(native="run-time monitors over the real code", checked="the same with overflow and debug checks",
                     miri="Miri", tsan="ThreadSanitizer", asan="AddressSanitizer")
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i} quick", thorough_cmd=f"python3 check.py {i} thorough",
                           evidence_file=f"evidence/{i}.json", technique=c.get("technique", "; ".join(names[k] for k in kinds)),
                           level="exploration", level_note=c.get("note", c["rule"])))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "no check built yet")))
m = dict(version=1, setup_cmd="bash setup.sh",
         hooks=dict(guard="cargo feature verif-hooks of sunscreen_tfhe (off by default)",
                    enable="harness crates depend on sunscreen_tfhe with features = [\"verif-hooks\"] through their own feature `hooks`",
                    source_commits=["8107706", "2ca3991"]),
         checks=checks, not_applicable=na,
         notes="All checks run the real code of /repo's working tree under seeded workloads; see DESIGN.md. Genuine defects: known-findings.json.")
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
