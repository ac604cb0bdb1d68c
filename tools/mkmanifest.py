#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from config import PROPS, NA
checks = []
for i, p in PROPS.items():
    checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
        technique="contract-based deductive verification: Verus contracts and lemmas on the real functions, extracted mechanically from /repo on every run (units %s and the units they import); the contracts' observable clauses are also evaluated on the running crate to find the failing input behind a failed obligation" % ", ".join(p["verus"]),
        level=p["level"], level_note=p["note"]))
m = dict(version=1, setup_cmd="cd harness && CARGO_TARGET_DIR=/verif/target/harness cargo build --offline --quiet",
    checks=checks, not_applicable=[dict(property=a, reason=b) for a, b in NA],
    notes="check.py runs Verus units (verus/*.rs over functions cut from /repo on every run by tools/vx.py) and the monitor (harness/). No hooks in /repo. known_findings.txt lists findings and fixes; DESIGN.md says what is proved, what is assumed and which planted bugs are caught.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(checks))
