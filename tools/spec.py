#!/usr/bin/env python3
"""The single source of properties.jsonl, checks.json and MANIFEST.json.  Run: python3 tools/spec.py"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PR, CH, MA = [], {}, []
NOT_APPLICABLE = []


def P(id, title, statement, over, qtext, why, files, mech, observe, parts, note, technique="runtime monitoring: independent oracle over executions of the ASan/UBSan-instrumented library", assumptions=(), level="exploration"):
    assert len(title) <= 80, (id, len(title))
    PR.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
               "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": False}})
    base = dict(parts[0])
    if len(parts) > 1:
        base["more"] = parts[1:]
    if assumptions:
        base["assumptions"] = list(assumptions)
    CH[id] = base
    MA.append({"property": id, "quick_cmd": "python3 check.py %s" % id, "thorough_cmd": "python3 check.py %s --thorough" % id,
               "evidence_file": "evidence/%s.json" % id, "technique": technique, "level": level, "level_note": note})


def D(driver, quick, thorough, min_distinct=100, **kw):
    return dict({"driver": driver, "quick": quick, "thorough": thorough, "min_distinct": min_distinct}, **kw)


def S(script, quick, thorough, min_distinct=10, **kw):
    return dict({"script": script, "quick": quick, "thorough": thorough, "min_distinct": min_distinct}, **kw)


for name in sorted(os.listdir(os.path.join(V, "tools", "spec.d"))):
    if name.endswith(".py"):
        exec(compile(open(os.path.join(V, "tools", "spec.d", name)).read(), name, "exec"))
PR.sort(key=lambda p: p["id"])
MA.sort(key=lambda m: m["property"])
assert len({p["id"] for p in PR}) == len(PR)
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PR:
        f.write(json.dumps(p) + "\n")
# quick tiers that take a few seconds are run twice as long
for i in "C01 C02 C03 C04 C05 C06 C08 C09 C10 C11 M01 M02 M03 M04 M05 M06 F04 F05 F06 F08 F09 F11 E02 N02 N04 N05 P01 T01 T03 D01".split():
    for q in [CH[i]] + CH[i].get("more", []):
        q["quick"] = min(2 * q["quick"], q["thorough"])
with open(os.path.join(V, "checks.json"), "w") as f:
    json.dump(CH, f, indent=1, sort_keys=True)
    f.write("\n")
drivers = sorted({(d["driver"], d.get("config", "asan")) for b in CH.values() for d in [b] + b.get("more", []) if "driver" in d})
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": MA, "not_applicable": NOT_APPLICABLE,
               "notes": "No hooks are needed in /repo: every check observes the library through its own interface (or through subclasses in /verif/drivers). known_findings.txt lists recorded findings and repaired defects."}, f, indent=1)
    f.write("\n")
with open(os.path.join(V, "tools", "drivers.json"), "w") as f:
    json.dump(drivers, f)
    f.write("\n")
print(len(PR), "properties;", len(drivers), "driver builds")
