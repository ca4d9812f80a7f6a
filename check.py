#!/usr/bin/env python3
"""check.py ID : builds the property's driver from /repo's working tree (sanitised), runs it in parallel
shards, and turns what its monitors recorded into a verdict and an evidence file.
check.py --replay FILE : re-runs one recorded case."""
import json, os, re, struct, subprocess, sys, time, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
import build as B
VERIF = B.VERIF
with open(os.path.join(VERIF, "checks.json")) as f:
    PROPS = json.load(f)
ENV = dict(os.environ, GUNNS_HOME=B.REPO,
           ASAN_OPTIONS="abort_on_error=0:exitcode=98:detect_leaks=%s:detect_stack_use_after_return=1:allocator_may_return_null=0:max_allocation_size_mb=4096:symbolize=1:print_summary=1",
           UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=98",
           TSAN_OPTIONS="halt_on_error=1:exitcode=98:second_deadlock_stack=1:history_size=4",
           LSAN_OPTIONS="exitcode=96:print_suppressions=0")


def known(pid):
    res = {}
    try:
        with open(os.path.join(VERIF, "known_findings.txt")) as f:
            for line in f:
                m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
                if m and m.group(1) == pid:
                    res[m.group(2)] = m.group(3).strip()
    except OSError:
        pass
    return res


def crash_key(err, rc):
    kind = None
    for pat in (r"SUMMARY: (\w+Sanitizer): (\S+)", r"runtime error: ([^\n]*)", r"(MON-HANG)", r"terminate called"):
        m = re.search(pat, err)
        if m:
            kind = m.group(0)[:90] if not m.groups() else ":".join(g for g in m.groups())
            break
    m2 = re.search(r"#\d+ 0x[0-9a-f]+ in (.+?) (%s/\S+?):(\d+)" % re.escape(B.REPO), err)
    where = m2.group(1) if m2 else "?"
    where = re.sub(r"\(.*", "", where)
    kind = re.sub(r"0x[0-9a-f]+|-?\d[\d.e+]*", "N", kind or "rc%d" % rc)
    return re.sub(r"\s+", "_", "crash:%s@%s" % (kind[:70], where))


def run_driver(exe, pid, spec, tier, seed, cases, outdir, shards):
    env = dict(ENV)
    env["ASAN_OPTIONS"] = env["ASAN_OPTIONS"] % ("1" if spec.get("leaks") else "0")
    limit = spec.get("case_limit", 60)
    procs = []
    deadline = time.time() + (spec.get("timeout", 700) if tier == "quick" else spec.get("timeout_thorough", 7200))

    def start(sh, first, part):
        out = os.path.join(outdir, "%d.%d.json" % (sh, part))
        prog = os.path.join(outdir, "%d.%d.prog" % (sh, part))
        err = open(os.path.join(outdir, "%d.%d.err" % (sh, part)), "wb")
        cmd = [exe, pid, "--seed", str(seed), "--cases", str(cases), "--shard", str(first), "--nshards", str(shards),
               "--out", out, "--progress", prog, "--case-limit", str(limit), "--tier", tier]
        p = subprocess.Popen(cmd, env=env, stdout=subprocess.DEVNULL, stderr=err, cwd=outdir)
        return {"p": p, "sh": sh, "part": part, "out": out, "prog": prog, "err": err.name, "cmd": cmd}

    res, crashes, restarts = [], [], {}
    procs = [start(s, s, 0) for s in range(shards)]
    timed_out = False
    while procs:
        time.sleep(0.02)
        nxt = []
        for q in procs:
            rc = q["p"].poll()
            if rc is None:
                if time.time() > deadline:
                    q["p"].kill()
                    q["p"].wait()
                    timed_out = True
                else:
                    nxt.append(q)
                continue
            ok = os.path.exists(q["out"])
            if ok:
                with open(q["out"]) as f:
                    d = json.load(f)
                keys = set()
                with open(q["out"] + ".keys", "rb") as f:
                    b = f.read()
                keys.update(struct.unpack("<%dQ" % (len(b) // 8), b))
                d["keys"] = keys
                res.append(d)
            if not ok or rc not in (0, 1):
                with open(q["err"], errors="replace") as f:
                    err = f.read()
                try:
                    with open(q["prog"]) as f:
                        cs, ci = f.read().split()
                except (OSError, ValueError):
                    cs, ci = "0", "-1"
                if rc == 3 and "unknown property" in err:
                    raise SystemExit("driver does not know " + pid)
                crashes.append({"key": crash_key(err, rc), "msg": err[-6000:], "seed": int(cs), "index": int(ci), "rc": rc})
                restarts[q["sh"]] = restarts.get(q["sh"], 0) + 1
                if not ok and int(ci) >= 0 and restarts[q["sh"]] <= 12 and int(ci) + shards < cases:
                    nxt.append(start(q["sh"], int(ci) + shards, q["part"] + 1))
        procs = nxt
    return res, crashes, timed_out


def main():
    if sys.argv[1] == "--replay":
        with open(sys.argv[2]) as f:
            r = json.load(f)
        if r.get("cmd"):
            print("replay:", " ".join(r["cmd"]))
            return subprocess.call(r["cmd"], cwd=VERIF)
        spec = PROPS[r["property"]]
        spec = ([spec] + spec.get("more", []))[r.get("part", 0)]
        exe = B.build(spec["driver"], spec.get("config", "asan"))
        env = dict(ENV)
        env["ASAN_OPTIONS"] = env["ASAN_OPTIONS"] % "0"
        return subprocess.call([exe, r["property"], "--seed", str(r["run_seed"]), "--index", str(r["index"]), "--tier", r["tier"]], env=env)
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    base = PROPS[pid]
    parts = [base] + base.get("more", [])
    repdir = os.environ.get("VERIF_REPLAY", os.path.join(VERIF, "replay"))
    os.makedirs(repdir, exist_ok=True)
    evdir = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
    os.makedirs(evdir, exist_ok=True)
    tot = {"evaluations": 0, "cases": 0, "counts": {}, "samples": [], "rule": []}
    keys, viol, vk = set(), [], {}
    inconclusive = []
    for pi, spec in enumerate(parts):
        outdir = os.path.join(B.BUILD, "run", "%s.%d.%d" % (pid, pi, os.getpid()))
        shutil.rmtree(outdir, ignore_errors=True)
        os.makedirs(outdir)
        cases = int(spec[tier])
        if "script" in spec:
            # a Python monitor: writes the same result format
            out = os.path.join(outdir, "r.json")
            cmd = ["python3", os.path.join(VERIF, "drivers", spec["script"]), pid, "--seed", str(seed), "--cases", str(cases), "--tier", tier, "--out", out]
            with open(os.path.join(outdir, "err"), "w") as ef:
                try:
                    rc = subprocess.call(cmd, cwd=outdir, stdout=subprocess.DEVNULL, stderr=ef, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"), timeout=spec.get("timeout", 700) if tier == "quick" else 7200)
                except subprocess.TimeoutExpired:
                    rc = 124
            if not os.path.exists(out):
                sys.stderr.write(open(os.path.join(outdir, "err")).read()[-3000:])
                raise SystemExit(2)
            with open(out) as f:
                d = json.load(f)
            d["keys"] = set(d["keys"])
            res, crashes, timed_out = [d], [], False
        else:
            exe = B.build(spec["driver"], spec.get("config", "asan"))
            tb = time.time() - t0
            tot["counts"]["build_seconds"] = tot["counts"].get("build_seconds", 0) + int(tb)
            shards = min(spec.get("shards", 8), max(1, cases))
            res, crashes, timed_out = run_driver(exe, pid, spec, tier, seed, cases, outdir, shards)
        if timed_out:
            inconclusive.append("part %d ran out of time" % pi)
        part_keys = set()
        for d in res:
            tot["evaluations"] += d["evaluations"]
            tot["cases"] += d.get("cases", 0)
            for k, n in d["counts"].items():
                tot["counts"][k] = tot["counts"].get(k, 0) + n
            tot["samples"] += d["samples"][:2]
            if d["rule"] not in tot["rule"]:
                tot["rule"].append(d["rule"])
            part_keys |= d["keys"]
            for v in d["violations"]:
                viol.append(dict(v, part=pi))
            for k, n in d["vkeys"].items():
                vk[k] = vk.get(k, 0) + n
        for c in crashes:
            viol.append({"key": c["key"], "msg": c["msg"], "seed": c["seed"], "index": c["index"], "part": pi})
            vk[c["key"]] = vk.get(c["key"], 0) + 1
        keys |= part_keys
        if len(part_keys) < spec.get("min_distinct", 1) and not viol and tier == "quick":
            inconclusive.append("part %d observed only %d distinct non-trivial situations (floor %d)" % (pi, len(part_keys), spec.get("min_distinct", 1)))
        shutil.rmtree(outdir, ignore_errors=True)
    kn = known(pid)
    new = {}
    for v in viol:
        if v["key"] not in kn and v["key"] not in new:
            new[v["key"]] = v
    for k in sorted(vk):
        if k in kn:
            print("KNOWN-FINDING: property=%s %s (key %s, seen %d times)" % (pid, kn[k], k, vk[k]))
    for k, v in sorted(new.items())[:12]:
        name = os.path.join(repdir, "%s-%s.json" % (pid, re.sub(r"[^A-Za-z0-9._-]", "_", k)[:60]))
        rep = {"property": pid, "key": k, "run_seed": seed, "index": v["index"], "case_seed": str(v["seed"]), "part": v["part"], "tier": tier,
               "message": v["msg"]}
        if v.get("cmd"):
            rep["cmd"] = v["cmd"]
        with open(name, "w") as f:
            json.dump(rep, f, indent=1)
        print("%s: %s (x%d): %s" % (pid, k, vk[k], v["msg"][:1500]))
        print("VIOLATION property=%s replay=%s" % (pid, name))
    ev = {"property": pid, "tier": tier, "seed": seed, "level": base.get("level", "exploration"),
          "coverage": {"evaluations": tot["evaluations"], "distinct_nontrivial": len(keys), "rule": " || ".join(tot["rule"]),
                       "samples": tot["samples"][:8] or ["(none)"], "cases": tot["cases"], "observed": tot["counts"],
                       "known_findings_seen": {k: vk[k] for k in vk if k in kn}},
          "assumptions": base.get("assumptions", []) + inconclusive,
          "wall_s": round(time.time() - t0, 2), "violations": sum(vk[k] for k in new)}
    with open(os.path.join(evdir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d cases, %d monitored evaluations, %d distinct non-trivial, %.1f s, %d violation keys, %s" %
          (pid, tot["cases"], tot["evaluations"], len(keys), time.time() - t0, len(new), inconclusive or "conclusive"))
    if new:
        return 1
    if inconclusive:
        print("INCONCLUSIVE: " + "; ".join(inconclusive))
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
