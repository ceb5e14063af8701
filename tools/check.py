#!/usr/bin/env python3
"""Builds one property's harness from /repo's working tree and runs it.

usage: check.py <property> [--replay FILE] [extra harness args]
Exit 0: held on everything explored (or only listed known findings); 1: VIOLATION; 2: machinery error.
"""
import concurrent.futures, glob, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
BUILD = os.environ.get("MC_BUILD", os.path.join(VERIF, "build"))
TIER = os.environ.get("VERIF_TIER", "quick")

COMMON = ["-std=c++14", "-DFMT_DEPRECATED_OSTREAM", '-DLOGDIR="/tmp"', "-I" + REPO, "-I" + VERIF + "/mc",
          "-I" + VERIF + "/harness", "-w", "-g1", "-MMD"]
VARIANTS = {
    # sequential harnesses: memory errors must fail loudly
    "asan": dict(flags=["-O1", "-fsanitize=address", "-fno-omit-frame-pointer"],
                 link=["-fsanitize=address", "-pthread"]),
    # numeric harnesses without the sanitizer (many cheap executions)
    "plain": dict(flags=["-O1"], link=["-pthread"]),
    # controlled scheduler: instrumented by the compiler, our own runtime instead of libtsan
    "sched": dict(flags=["-O1", "-fsanitize=thread", "-fno-omit-frame-pointer"], link=["-rdynamic", "-pthread", "-ldl"]),
    # runtime files of the scheduler are not instrumented
    "rt": dict(flags=["-O2"], link=[]),
}
HARNESS = {}


def load_table():
    """Every harness file declares on its first lines: // check: P01 variant=sched sources=threadpool.cpp,..."""
    for f in sorted(glob.glob(VERIF + "/harness/*.cpp")):
        for line in open(f).read().splitlines()[:12]:
            m = re.match(r"//\s*check:\s*(\w+)\s+variant=(\w+)(?:\s+sources=(\S+))?(?:\s+extra=(\S+))?", line)
            if m:
                HARNESS[m.group(1)] = dict(file=f, variant=m.group(2), sources=m.group(3) or "all",
                                           extra=m.group(4).split(",") if m.group(4) else [])


def nontrivial(path):
    t = open(path, errors="replace").read()
    t = re.sub(r"/\*.*?\*/", "", t, flags=re.S)
    t = re.sub(r"//[^\n]*", "", t)
    t = re.sub(r"^\s*#\s*(include|pragma)[^\n]*$", "", t, flags=re.M)
    return t.strip() != ""


def repo_sources():
    out = []
    for base in ("altro", "examples"):
        for root, dirs, files in os.walk(os.path.join(REPO, base)):
            for f in sorted(files):
                p = os.path.join(root, f)
                if not f.endswith(".cpp") or not nontrivial(p):
                    continue
                if re.search(r"\bint\s+main\s*\(", open(p, errors="replace").read()):
                    continue
                out.append(p)
    return sorted(out)


def digest(paths, extra):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        try:
            h.update(p.encode())
            h.update(open(p, "rb").read())
        except OSError:
            h.update(b"missing")
    return h.hexdigest()


def compile_one(src, variant, force_flags=()):
    flags = COMMON + VARIANTS[variant]["flags"] + list(force_flags)
    od = os.path.join(BUILD, variant)
    os.makedirs(od, exist_ok=True)
    name = re.sub(r"[^A-Za-z0-9]+", "_", os.path.relpath(src, "/"))
    obj = os.path.join(od, name + ".o")
    dep, stamp = obj[:-2] + ".d", obj + ".stamp"
    cmd = ["g++"] + flags + ["-c", src, "-o", obj, "-MF", dep]

    def deps():
        t = open(dep).read().replace("\\\n", " ")
        ds = t.split(":", 1)[1].split()
        return sorted(d for d in set(ds) if d.startswith((REPO, VERIF)))

    if os.path.exists(obj) and os.path.exists(dep) and os.path.exists(stamp):
        if open(stamp).read() == digest(deps(), " ".join(cmd)):
            return obj, None
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        return None, "compiling %s failed:\n%s" % (src, r.stderr[-4000:])
    with open(stamp, "w") as f:
        f.write(digest(deps(), " ".join(cmd)))
    return obj, None


def build(prop, every_source=False):
    h = HARNESS[prop]
    v = h["variant"]
    jobs = [(h["file"], v)]
    for e in h["extra"]:
        jobs.append((os.path.join(VERIF, "harness", e), v))
    srcs = repo_sources()
    if h["sources"] == "none" and not every_source:
        srcs = []
    elif h["sources"] != "all" and not every_source:
        want = h["sources"].split(",")
        srcs = [s for s in srcs if any(s.endswith("/" + w) or ("/" + w + "/") in s for w in want)]
    jobs += [(s, v) for s in srcs]
    if v == "sched":
        jobs.append((VERIF + "/mc/mc.cpp", "rt"))
        jobs.append((VERIF + "/mc/sched.cpp", "rt"))
    else:
        jobs.append((VERIF + "/mc/mc.cpp", v))
    objs, errs = [], []
    with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        for o, e in ex.map(lambda j: compile_one(*j), jobs):
            if e:
                errs.append(e)
            else:
                objs.append(o)
    if errs:
        sys.stderr.write("\n".join(errs) + "\n")
        return None
    exe = os.path.join(BUILD, prop)
    r = subprocess.run(["g++", "-o", exe] + objs + VARIANTS[v]["link"] + ["-lfmt"], capture_output=True, text=True)
    if r.returncode != 0 and not every_source and h["sources"] != "all":
        return build(prop, True)   # the code now needs other parts of the repository as well
    if r.returncode != 0:
        sys.stderr.write("linking failed:\n" + r.stderr[-6000:] + "\n")
        return None
    return exe


def main():
    load_table()
    prop = sys.argv[1]
    if prop == "--setup":   # nothing is kept between runs: only see that the tools are there
        return subprocess.run(["g++", "--version"], stdout=subprocess.DEVNULL).returncode
    if prop not in HARNESS:
        sys.stderr.write("no harness for %s\n" % prop)
        return 2
    t0 = time.time()
    exe = build(prop)
    if exe is None:
        return 2
    sys.stdout.write("[%s] built in %.1f s\n" % (prop, time.time() - t0))
    sys.stdout.flush()
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    env = dict(os.environ)
    env.setdefault("VERIF_SEED", "1")
    env["VERIF_TIER"] = TIER
    env["MC_KNOWN"] = os.path.join(VERIF, "known-findings.txt")
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:detect_stack_use_after_return=1:allocator_may_return_null=1:handle_abort=0"
    env["LC_ALL"] = "C"
    args = [exe, "--evidence", os.path.join(ev, prop + ".json"), "--replay-out", os.path.join(ev, prop + ".replay.txt")]
    args += sys.argv[2:]
    r = subprocess.run(args, env=env, cwd=VERIF)
    return r.returncode if r.returncode in (0, 1) else 2


if __name__ == "__main__":
    sys.exit(main())
