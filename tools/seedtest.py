#!/usr/bin/env python3
"""Try one planted change (seeded/<id>) in a scratch copy of /repo: builds it, runs the repository's tests, the
demonstration with and without the change, and the property's check. usage: seedtest.py ID [--nocheck] [--quicktest]"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get("SEED_WT", "/tmp/wt")
B = os.environ.get("SEED_BUILD", "/tmp/wtb")
def sh(cmd, cwd=W, env=None, quiet=True):
    e = dict(os.environ); e.update(env or {})
    r = subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    return r.returncode, r.stdout
def build():
    return sh("sed 's#/repo#%s#g' /opt/vp/build.sh > %s.build.sh; bash %s.build.sh" % (W, W, W))
def main():
    i = sys.argv[1]; d = V + "/seeded/" + i
    meta = json.load(open(d + "/meta.json"))
    sh("git checkout -q -- . ; git fetch -q /repo main && git reset -q --hard FETCH_HEAD")
    if "--nobase" not in sys.argv:
        rc, o = build()
        if rc: print("BASE BUILD FAILED", o[-800:]); return 1
        rc, o = sh("bash %s/demo.sh" % d)
        print("demo on unchanged tree:", rc, "" if rc == 0 else o[-1500:])
    rc, o = sh("git apply %s/patch.diff" % d)
    if rc: print("PATCH DOES NOT APPLY", o); return 1
    try:
        rc, o = build()
        if rc: print("BUILD FAILED", o[-3000:]); return 1
        rc, o = sh("ctest --test-dir _build -j4 --timeout 120 -E '^TimerTest\\.' | tail -25")
        print("tests:", [l for l in o.splitlines() if "tests passed" in l or "Failed" in l or "***" in l][:8])
        rc, o = sh("timeout 300 bash %s/demo.sh" % d)
        print("demo with the change:", rc, o[-300:].strip())
        if "--nocheck" not in sys.argv:
            for p in ([a for a in sys.argv[2:] if a.startswith("P")] or [meta["property"]]):
                rc, o = sh("timeout 900 python3 tools/check.py " + p, cwd=V, env=dict(MC_REPO=W, MC_BUILD=B))
                print("check", p, "exit", rc, [l for l in o.splitlines() if "VIOLATION" in l or "error" in l][:4], o[-300:] if rc not in (0,1) else "")
    finally:
        sh("git checkout -q -- .")
main()
