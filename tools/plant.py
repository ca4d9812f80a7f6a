#!/usr/bin/env python3
"""plant.py FILE.py...: makes /verif/seeded/<id> from a bug description and validates it in a scratch copy
of /repo (bind-mounted over /repo in a private mount namespace), then runs the property's check there.
plant.py --recheck [ID...]: runs the checks again against the bugs already kept.
Not used by any check."""
import json, os, subprocess, sys, shutil, time
SCR = "/tmp/pl"
SEED = "/verif/seeded"
DEMO_SH = """#!/bin/bash
# Exit 0 when the property holds on the tree in the current directory, nonzero when it does not.
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d) || exit 2
trap 'rm -rf "$out"' EXIT
g++ -g -O1 -w -pthread %s-Dno_TRICK_ENV=1 -I. -Icore -Iaspects -Ims-utils -Igunns-ts-models "$here/demo.cpp" %s-o "$out/demo" || exit 2
cd "$out" && timeout 200 ./demo
"""


def ns(cmd, log=None, timeout=1500):
    full = ["unshare", "-Urm", "bash", "-c", "mount --bind %s/repo /repo && %s" % (SCR, cmd)]
    r = subprocess.run(full, capture_output=True, text=True, timeout=timeout, env=dict(os.environ, VERIF_BUILD=SCR + "/vbuild"))
    return r.returncode, r.stdout + r.stderr


def sync():
    os.makedirs(SCR, exist_ok=True)
    if not os.path.isdir(SCR + "/repo"):
        subprocess.run(["cp", "-a", "/repo", SCR + "/repo"], check=True)
    subprocess.run("cd %s/repo && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD" % SCR, shell=True, check=True)
    if not os.path.isdir(SCR + "/vbuild") and os.path.isdir("/verif/build"):
        subprocess.run(["cp", "-a", "/verif/build", SCR + "/vbuild"], check=True)
    rc, o = ns("bash /opt/vp/build.sh")
    assert rc == 0, o[-2000:]


def check(bid, prop, thorough=False):
    t = time.time()
    rc, o = ns("cd /verif && VERIF_SEED=1 VERIF_TIER=quick VERIF_EVIDENCE=%s/ev VERIF_REPLAY=%s/replay python3 check.py %s" % (SCR, SCR, prop))
    caught = rc == 1 and ("VIOLATION property=%s" % prop) in o
    print("   check %s: rc=%d %s (%.0fs)" % (prop, rc, "CAUGHT" if caught else "*** MISSED", time.time() - t), flush=True)
    for l in [l for l in o.splitlines() if "VIOLATION" in l or "rror" in l][:3]:
        print("      ", l[:260])
    if rc not in (0, 1):
        print(o[-1500:])
    return caught


def make(f):
    g = {}
    exec(open(f).read(), g)
    bid = os.path.basename(f)[:-3]
    sync()
    R = SCR + "/repo/"
    for path, old, new in g["EDITS"]:
        s = open(R + path, newline="").read(); crlf = "\r\n" in s
        if crlf: old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        if s.count(old) != 1:
            print(bid, "edit of", path, "matches", s.count(old)); return False
        open(R + path, "w", newline="").write(s.replace(old, new))
    d = os.path.join(SEED, bid)
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    diff = subprocess.run(["git", "-C", R, "diff"], capture_output=True).stdout.decode(errors="surrogateescape")
    open(d + "/patch.diff", "w", newline="", errors="surrogateescape").write(diff)
    assert subprocess.run(["git", "-C", "/repo", "apply", "--check", d + "/patch.diff"]).returncode == 0, "patch does not apply"
    ex = g.get("FLAGS", "")
    lib = "" if g.get("NOLIB") else "_build/libgunns.a "
    open(d + "/demo.sh", "w").write(g.get("SH") or DEMO_SH % (ex + " " if ex else "", g.get("SRC", "") + " " + lib))
    os.chmod(d + "/demo.sh", 0o755)
    if "DEMO" in g:
        open(d + "/demo.cpp", "w").write(g["DEMO"])
    for n, t in g.get("FILES", {}).items():
        open(d + "/" + n, "w").write(t)
    json.dump({"property": g["PROP"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    print("==", bid, g["PROP"], flush=True)
    ok = True
    rc, o = ns("bash /opt/vp/build.sh")
    if rc: print("   build failed", o[-1500:]); ok = False
    if ok:
        rc, o = ns("cd /repo && %s/demo.sh" % d)
        print("   demo patched rc", rc, o.strip()[-160:])
        if rc == 0 or rc in (2, 126, 127): ok = False; print("   BAD DEMO", o[-500:])
    if ok:
        rc, o = ns("bash /opt/vp/test.sh %s/out.json" % SCR)
        last = o.strip().splitlines()[-1]
        base = set(json.load(open("/opt/vp/BASELINE.json")).get("passed", [])) if False else None
        if last != "2158 passed, 0 failed": ok = False; print("   TESTS", last, [l for l in o.splitlines() if ", 0 failed" not in l and "failed" in l][:3])
    if ok and g.get("ALSO"):
        for p in g["ALSO"]: check(bid, p)
    caught = check(bid, g["PROP"]) if ok else False
    sync()
    rc, o = ns("cd /repo && %s/demo.sh" % d)
    if rc: ok = False; print("   demo base rc", rc, o[-300:])
    if not ok:
        shutil.rmtree(d); print("   DISCARDED")
    return caught


def recheck(ids):
    res = {}
    for bid in ids or sorted(os.listdir(SEED)):
        d = os.path.join(SEED, bid)
        prop = json.load(open(d + "/meta.json"))["property"]
        sync()
        r = subprocess.run(["git", "-C", SCR + "/repo", "apply", d + "/patch.diff"])
        if r.returncode: print(bid, "DOES NOT APPLY"); continue
        print("==", bid)
        res[bid] = check(bid, prop)
    sync()
    print("missed:", [b for b in res if not res[b]])


if __name__ == "__main__":
    if sys.argv[1] == "--recheck":
        recheck(sys.argv[2:])
    else:
        for f in sys.argv[1:]:
            make(f)
