#!/usr/bin/env python3
"""mutate.py N SEED [PROP...]: random small mutations of the files each property is anchored in, in a scratch copy
of /repo bind-mounted over /repo; reports those that neither the property's check nor the existing tests notice.
A tool for finding blind spots; not used by any check."""
import json, os, random, re, subprocess, sys, time
SCR = os.environ.get("MU", "/tmp/mu")
R = SCR + "/repo/"
V = SCR + "/verif"


def ns(cmd, timeout=1500):
    r = subprocess.run(["unshare", "-Urm", "bash", "-c", "mount --bind %s/repo /repo && %s" % (SCR, cmd)], capture_output=True, text=True, errors="replace", timeout=timeout, env=dict(os.environ, VERIF_BUILD=SCR + "/vbuild"))
    return r.returncode, r.stdout + r.stderr


def setup():
    os.makedirs(SCR, exist_ok=True)
    if not os.path.isdir(R):
        subprocess.run(["cp", "-a", "/repo", SCR + "/repo"], check=True)
    subprocess.run("cd %s/repo && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD" % SCR, shell=True, check=True)
    subprocess.run("mkdir -p %s && cd /verif && git archive HEAD | tar x -C %s" % (V, V), shell=True, check=True)
    if not os.path.isdir(SCR + "/vbuild"):
        subprocess.run(["cp", "-a", "/verif/build", SCR + "/vbuild"], check=True)
    c = json.load(open(V + "/checks.json"))
    for s in c.values():
        for q in [s] + s.get("more", []):
            q["quick"] = max(8, int(q["quick"]) // int(os.environ.get("SCALE", "3")))
            q["min_distinct"] = 1
    json.dump(c, open(V + "/checks.json", "w"))
    ns("bash /opt/vp/build.sh")


OPS = [("neg-if", r"\bif \((?=.*\)\s*\{?\s*$)", "if (not "), ("and-or", r"&&|\band\b", "||"), ("or-and", r"\|\||\bor\b", "&&"), ("lt-gt", r"(?<![<\-])<(?![<=])(?=\s)", ">"), ("gt-lt", r"(?<![>\-])>(?![>=])(?=\s)", "<"),
       ("plus-minus", r"(?<=\s)\+(?=\s)", "-"), ("minus-plus", r"(?<=\s)-(?=\s)", "+"), ("mul-div", r"(?<=\s)\*(?=\s)", "/"), ("pe-me", r"\+=", "-="), ("me-pe", r"-=", "+="), ("max-min", r"\bmax\(", "min("), ("min-max", r"\bmin\(", "max("),
       ("port", r"\[0\]", "[1]"), ("port1", r"\[1\]", "[0]"), ("zero-one", r"\b0\.0\b", "1.0"), ("one-zero", r"\b1\.0\b", "0.0"), ("true-false", r"\btrue\b", "false"), ("false-true", r"\bfalse\b", "true"), ("eq-ne", r"==", "!="), ("delete", None, None), ("scale", None, None), ("plus1", r"(?<=< )(m\w+|\w+)(?=;)", r"\1 - 1")]


def candidates(path):
    raw = open(R + path, newline="", errors="surrogateescape").read().split("\n")
    out, depth, fn, incomment, skip = [], 0, False, False, 0
    for i, l in enumerate(raw):
        code = re.sub(r"//.*", "", l)
        if "/*" in code and "*/" not in code: incomment = True; continue
        if incomment:
            if "*/" in code: incomment = False
            continue
        if skip:
            skip -= 0 if ";" not in code else 1
            continue
        if re.search(r"GUNNS_(ERROR|WARN|INFO)|TS_GENERIC|TS_HS|throw|_ERREX|hsSendMsg|#", code):
            if ";" not in code and "#" not in code: skip = 1
            depth += code.count("{") - code.count("}")
            continue
        if re.match(r"^(?!struct|class|namespace)[A-Za-z_].*::.*\(", l): fn = True; name = l
        if depth > 0 and fn and code.strip() and not re.match(r"^\w+::~?\w+", code) and "validate" not in name and "operator" not in name and "Data::" not in name:
            s = code.rstrip("\r").rstrip()
            for k, pat, rep in OPS:
                if pat:
                    for m in re.finditer(pat, s):
                        new = s[:m.start()] + m.expand(rep) if rep and "\\" in rep else s[:m.start()] + (rep or "")
                        new += s[m.end():]
                        if k == "neg-if":
                            new = re.sub(r"if \(not (.*)\)(\s*\{?\s*)$", r"if (not (\1))\2", new)
                        out.append((i, k, l, new))
                elif k == "delete" and re.match(r"^\s+[\w\.\[\]\->:]+(\(.*\)|\s*[-+*/]?=[^=].*);$", s) and not re.match(r"^\s+(return|const|double|int|bool|float|delete)\b", s):
                    out.append((i, k, l, re.match(r"^\s*", s).group() + ";"))
                elif k == "scale":
                    m = re.match(r"^(\s+(?:const double |double )?[\w\.\[\]\->]+\s*[-+]?=\s*)([^=;][^;]*[\*/+\-][^;]*);$", s)
                    if m and '"' not in s and "new " not in s and "&" not in s: out.append((i, k, l, "%s1.02 * (%s);" % (m.group(1), m.group(2))))
        depth += code.count("{") - code.count("}")
        if depth == 0 and "}" in code: fn = False
    return raw, out


def main():
    n, seed = int(sys.argv[1]), int(sys.argv[2])
    setup()
    props = [json.loads(l) for l in open(V + "/properties.jsonl")]
    files = json.load(open(V + "/checks.json"))
    want = sys.argv[3:]
    log = open(SCR + "/log.%d" % seed, "a")
    def say(*a):
        print(*a, flush=True); print(*a, file=log, flush=True)
    rng = random.Random(seed)
    order = [p for p in props if not want or p["id"] in want]
    for rnd in range(n):
        for p in order:
            fs = [f for f in re.findall(r"[\w\-/]+\.cpp", json.dumps(p)) if os.path.isfile(R + f)]
            if not fs: continue
            f = rng.choice(sorted(set(fs)))
            raw, cs = candidates(f)
            if not cs: continue
            kinds = sorted({c[1] for c in cs}); k = rng.choice(kinds)
            i, k, old, new = rng.choice([c for c in cs if c[1] == k])
            if old.endswith("\r"): new += "\r"
            lines = list(raw); lines[i] = new
            open(R + f, "w", newline="", errors="surrogateescape").write("\n".join(lines))
            t = time.time(); verdict = "?"
            try:
                rc, o = ns("cd %s && VERIF_SEED=%d VERIF_TIER=quick VERIF_EVIDENCE=%s/ev VERIF_REPLAY=%s/replay timeout 300 python3 check.py %s" % (V, 1 + rnd, SCR, SCR, p["id"]))
                if rc == 1 and "VIOLATION" in o: verdict = "caught"
                elif "error:" in o and rc != 0: verdict = "nobuild"
                else:
                    rc2, o2 = ns("bash /opt/vp/build.sh && bash /opt/vp/test.sh %s/out.json" % SCR)
                    last = o2.strip().splitlines()[-1]
                    verdict = ("SURVIVES" if last == "2158 passed, 0 failed" else "tests-catch") + ("" if rc == 0 else " rc=%d" % rc)
            except subprocess.TimeoutExpired: verdict = "timeout"
            open(R + f, "w", newline="", errors="surrogateescape").write("\n".join(raw))
            say("%-12s %s %-11s %s:%d (%.0fs)" % (verdict, p["id"], k, f, i + 1, time.time() - t))
            if verdict.startswith(("SURV", "tests")): say("     - " + old.strip()); say("     + " + new.strip())
    log.close()


if __name__ == "__main__":
    main()
