#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design/*, the specs, the drivers' rules, the seeded bugs and the findings."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(V + "/tools/design/oracles.py").read())
rd = lambda p: open(V + "/" + p).read()
props = [json.loads(l) for l in rd("properties.jsonl").splitlines()]
checks = json.loads(rd("checks.json"))
man = {m["property"]: m for m in json.loads(rd("MANIFEST.json"))["checks"]}
na = json.loads(rd("MANIFEST.json"))["not_applicable"]
rules = {}
for f in sorted(glob.glob(V + "/drivers/*.cpp")):
    for m in re.finditer(r'MON_PROP2?\((\w+),\s*(?:(\w+),\s*)?"((?:[^"\\]|\\.)*)"\)', open(f).read()):
        rules.setdefault(m.group(1), []).append((os.path.basename(f), m.group(2) or "", m.group(3)))
out = [rd("tools/design/head.md")]
out.append("\n## 3. Properties and how each is decided\n\nEach entry: what is judged against (oracle), the workloads (one line per monitor: what a distinct observation is keyed by), size (quick/thorough cases), bounds, and why tests cannot settle it.  Statements are in properties.jsonl.\n")
for p in props:
    i = p["id"]
    b = checks[i]
    parts = [b] + b.get("more", [])
    size = "; ".join("%s%s %s/%s" % (q.get("driver", q.get("script", "")), " (%s)" % q["config"] if "config" in q else "", q["quick"], q["thorough"]) for q in parts)
    out.append("\n### %s %s\n" % (i, p["title"]))
    out.append("* Oracle: %s." % ORACLE.get(i, "see the driver"))
    for f, t, r in rules.get(i, []):
        out.append("* Workload %s`%s`: %s." % ("`%s` in " % t if t else "", f, r.replace('\\"', '"').rstrip(".")))
    out.append("* Cases quick/thorough: %s. Bounds: %s" % (size, man[i]["level_note"]))
    out.append("* Over: %s. Beyond tests: %s" % (p["quantifier"]["text"].rstrip("."), p["why_tests_cant"]))
out.append("\n## 4. Not applicable\n")
out += ["* %s: %s" % (n.get("property"), n.get("reason")) for n in na] or ["No listed property is left out."]
out.append(rd("tools/design/bugs.md"))
out.append("| bug | property | needs | breaks | caught by |\n|---|---|---|---|---|")
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d))
    out.append("| %s | %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m["property"], m["needs"], m["what_it_breaks"], m.get("caught_by", m["property"])))
kf = rd("known_findings.txt").splitlines()
out.append(rd("tools/design/findings.md"))
for kind, title in (("known", "Recorded findings (not repaired)"), ("fixed", "Repaired defects")):
    out.append("\n### %s\n" % title)
    for l in kf:
        m = re.match(r"%s: property=(\S+) (\S+) (.*)" % kind, l)
        if m:
            out.append("* **%s** `%s`: %s" % (m.group(1), m.group(2).replace("key=", ""), m.group(3)))
out.append(rd("tools/design/tail.md"))
open(V + "/DESIGN.md", "w").write("\n".join(out) + "\n")
print(len("\n".join(out)), "bytes")
