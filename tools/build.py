#!/usr/bin/env python3
"""Builds one driver of /verif/drivers against the sources of /repo's working tree.

The set of library sources is the closure of the driver's includes: every repository header X.hh (.h)
reached brings in X.cpp (.c) when the library's sources*.mk list it.  Objects are cached by content
(source, dependencies as reported by the compiler, and flags), never by time stamp."""
import fcntl, hashlib, json, os, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
INC = [REPO, REPO + "/core", REPO + "/aspects", REPO + "/ms-utils", REPO + "/gunns-ts-models"]
CONFIGS = {
    "asan": ("g++", ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"], []),
    "tsan": ("g++", ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=thread"], []),
    "plain": ("g++", ["-O1", "-g1"], []),
}
COMMON = ["-Dno_TRICK_ENV=1", "-DVERIF_HOOKS=1", "-w", "-pthread"]
_sha = {}


def sha(path):
    if path not in _sha:
        try:
            with open(path, "rb") as f:
                _sha[path] = hashlib.sha1(f.read()).hexdigest()
        except OSError:
            _sha[path] = "missing"
    return _sha[path]


def lib_sources():
    """The library's own list: lib/sources.mk less the two omit files (plus headers' companions)."""
    mk = "include %s/lib/sources.mk\ninclude %s/lib/sources_omit.mk\ninclude %s/lib/sources_omit_trickless.mk\nall:\n\t@echo $(SOURCES)\n" % (REPO, REPO, REPO)
    env = dict(os.environ, GUNNS_HOME=REPO)
    env.pop("MAKEFLAGS", None)
    out = subprocess.run(["make", "-s", "-f", "-", "all"], input=mk, env=env, capture_output=True, text=True)
    if out.returncode:
        raise SystemExit("cannot list library sources: " + out.stderr)
    return sorted({os.path.normpath(s) for s in out.stdout.split() if s.endswith(".cpp")})


_inc = {}
INC_RE = re.compile(r'^\s*#\s*include\s+["<]([^">]+)[">]', re.M)


def includes(path):
    if path not in _inc:
        with open(path, errors="replace") as f:
            text = f.read()
        res = []
        for name in INC_RE.findall(text):
            for d in [os.path.dirname(path)] + INC + [VERIF + "/drivers"]:
                p = os.path.normpath(os.path.join(d, name))
                if os.path.isfile(p):
                    res.append(p)
                    break
        _inc[path] = res
    return _inc[path]


def closure(roots, libset):
    seen, todo, srcs = set(), list(roots), set()
    while todo:
        p = todo.pop()
        if p in seen:
            continue
        seen.add(p)
        if p in libset:
            srcs.add(p)
        for h in includes(p):
            todo.append(h)
            if h.startswith(REPO + "/"):
                base = os.path.splitext(h)[0]
                c = base + ".cpp"
                if c in libset:
                    todo.append(c)
    return srcs


def compile_one(cfg, src, extra=()):
    cxx, flags, _ = CONFIGS[cfg]
    rel = src[len(REPO) + 1:] if src.startswith(REPO + "/") else "verif/" + os.path.relpath(src, VERIF)
    obj = os.path.join(BUILD, cfg, rel + ".o")
    key = obj + ".key"
    cmd = [cxx] + flags + COMMON + list(extra) + ["-I" + d for d in INC] + ["-I" + VERIF + "/drivers"]
    cmdh = hashlib.sha1(" ".join(cmd).encode()).hexdigest()
    try:
        with open(key) as f:
            k = json.load(f)
        if k["cmd"] == cmdh and os.path.exists(obj) and all(sha(p) == h for p, h in k["deps"].items()):
            return obj, None, False
    except (OSError, ValueError, KeyError):
        pass
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    for p in (key,):
        if os.path.exists(p):
            os.remove(p)
    r = subprocess.run(cmd + ["-MMD", "-MF", obj + ".d", "-c", src, "-o", obj], capture_output=True, text=True)
    if r.returncode:
        return obj, r.stderr, True
    with open(obj + ".d") as f:
        deps = f.read().replace("\\\n", " ").split(":", 1)[1].split()
    deps = {os.path.normpath(p): sha(os.path.normpath(p)) for p in deps if not p.startswith("/usr/")}
    with open(key, "w") as f:
        json.dump({"cmd": cmdh, "deps": deps}, f)
    return obj, None, True


def build(driver, cfg="asan", jobs=None, quiet=True):
    """Returns the path of the executable; raises SystemExit(2) on a build error."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        return _build(driver, cfg, jobs or os.cpu_count(), quiet)


def _build(driver, cfg, jobs, quiet):
    dsrc = os.path.join(VERIF, "drivers", driver + ".cpp")
    with open(dsrc) as f:
        head = f.read(4000)
    m = re.search(r"//\s*EXTRA_FLAGS:(.*)", head)
    extra = m.group(1).replace("{VERIF}", VERIF).split() if m else []
    m = re.search(r"//\s*EXTRA_LIBS:(.*)", head)
    libs = m.group(1).split() if m else []
    m = re.search(r"//\s*EXTRA_SOURCES:(.*)", head)
    extrasrc = [os.path.join(REPO, s) for s in (m.group(1).split() if m else [])]
    nomon = "NO_MON_MAIN" in head
    own = [dsrc] + ([] if nomon else [os.path.join(VERIF, "drivers", "mon.cpp")])
    libset = set(lib_sources()) | set(extrasrc)
    exe = os.path.join(BUILD, cfg, driver)
    last = ""
    for attempt in (0, 1):
        srcs = closure(own + extrasrc, libset) if attempt == 0 else libset
        objs, errs = [], []
        work = [(s, extra) for s in own] + [(s, extra if s in extrasrc else []) for s in sorted(srcs)]
        # biggest first, to balance the pool
        work.sort(key=lambda w: -os.path.getsize(w[0]) - (10 ** 9 if w[0] in own else 0))
        with ThreadPoolExecutor(jobs) as ex:
            for (s, e), (o, err, ch) in zip(work, ex.map(lambda w: compile_one(cfg, w[0], w[1]), work)):
                objs.append(o)
                if err:
                    errs.append("%s:\n%s" % (s, err[:4000]))
        if errs:
            last = "\n".join(errs)
            if attempt == 0 and not any(o == dsrc for o in own if any(e.startswith(o) for e in errs)):
                pass
            break
        lst = exe + ".objs"
        def stamp(o):
            with open(o + ".key") as f:
                return hashlib.sha1(f.read().encode()).hexdigest()
        text = "\n".join(sorted(o + " " + stamp(o) for o in objs))
        if os.path.exists(exe) and os.path.exists(lst) and open(lst).read() == text:
            return exe
        cxx, flags, lf = CONFIGS[cfg]
        rsp = exe + ".rsp"
        mine = [o for o in objs if "/verif/" in o[len(BUILD):]]
        theirs = [o for o in objs if o not in mine]
        arc = exe + ".lib.a"
        for p in (arc, lst):
            if os.path.exists(p):
                os.remove(p)
        with open(rsp, "w") as f:
            f.write("\n".join(theirs))
        if theirs:
            subprocess.run(["ar", "crsT", arc, "@" + rsp], check=True)
        r = subprocess.run([cxx] + flags + ["-pthread"] + mine + ([arc, arc] if theirs else []) + libs + ["-o", exe + ".tmp"], capture_output=True, text=True)
        if r.returncode == 0:
            os.replace(exe + ".tmp", exe)
            with open(lst, "w") as f:
                f.write(text)
            return exe
        last = r.stderr[-6000:]
        if "undefined reference" not in r.stderr:
            break
    sys.stderr.write("BUILD FAILED (%s, %s)\n%s\n" % (driver, cfg, last))
    raise SystemExit(2)


if __name__ == "__main__":
    for d in sys.argv[2:]:
        print(build(d, sys.argv[1]))
