#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json:  python3 tools/props.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS

P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, technique, note, observe_at=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    assert statement.count(". ") <= 2, (id, statement)
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mechanism=mechanism, technique=technique, note=note, observe_at=observe_at or [], hook=hook))


SAN = "ASan+UBSan+libstdc++ assertions (always-initialised heap with varying fill) over the same runs"
TRUST = "Sampled inputs: silence means no violation on what the run's evidence lists, not a proof. Trusts gcc, libstdc++, the sanitizer runtimes and the reference oracle in the harness."

exec(open(os.path.join(V, "tools", "proplist.py")).read())

ids = [p["id"] for p in P]
assert len(set(ids)) == len(ids)
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mechanism"]],
                        "observe_at": p["observe_at"], "hook_needed": p["hook"]}}) + "\n")
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": [],
     "notes": "Every check is run.py <id>: it compiles the harness in harness/ against /repo's sources with sanitizers, runs the workload under the monitors in 8 shards, and judges what they saw. No hooks in /repo are needed."}
for p in P:
    if p["id"] in CHECKS:
        m["checks"].append({"property": p["id"], "quick_cmd": "VERIF_TIER=quick python3 run.py " + p["id"],
                            "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + p["id"],
                            "evidence_file": "evidence/%s.json" % p["id"],
                            "technique": p["technique"], "level": CHECKS[p["id"]].get("level", "exploration"), "level_note": p["note"]})
    else:
        m["not_applicable"].append({"property": p["id"], "reason": "check not built yet"})
assert set(CHECKS) <= set(ids), set(CHECKS) - set(ids)
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(P), "properties,", len(m["checks"]), "claimed")
