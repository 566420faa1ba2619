#!/usr/bin/env python3
"""Planted bugs.
  seed.py try ID [PROP...]  apply seeded/ID in a scratch copy of /repo: build, tests, demo (both ways);
                            then apply it to /repo, run the check(s), undo
  seed.py check ID          only the check part
  seed.py all               the check part for every planted bug; updates tools/seeded_results.json"""
import json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"

def sh(cmd, cwd=None, timeout=1500, env=None):
    p = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout, env=env)
    return p.returncode, p.stdout + p.stderr

def clean():
    rc, o = sh("git status --porcelain --untracked-files=no", R)
    if o.strip():
        sys.exit("/repo is not clean")

def full(i):
    """/repo is a fixed path of the build, so the bug is applied there and undone."""
    d = os.path.join(V, "seeded", i)
    clean()
    rc, o = sh("bash /opt/vp/build.sh"); assert rc == 0, o[-2000:]
    tmp = "/tmp/demo_" + i
    shutil.rmtree(tmp, ignore_errors=True); shutil.copytree(d, tmp)
    for f in os.listdir(tmp):
        if f.endswith((".diff", ".patch")) or f == "meta.json":
            os.remove(os.path.join(tmp, f))
    rc0, o0 = sh("bash %s/demo.sh" % tmp, R, 300)
    print("demo on unchanged tree:", rc0, "" if rc0 == 0 else o0[-1500:])
    rc, o = sh("git apply %s/patch.diff" % d, R)
    if rc:
        print("patch does not apply", o); return False
    try:
        rc, o = sh("bash /opt/vp/build.sh")
        print("build:", rc, "" if rc == 0 else o[-1500:])
        if rc: return False
        rc1, o1 = sh("bash %s/demo.sh" % tmp, R, 300)
        print("demo on changed tree:", rc1, o1[-300:])
        sh("bash /opt/vp/test.sh /tmp/seed_o.json")
        base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        got = set(json.load(open("/tmp/seed_o.json"))["passed"])
        miss = sorted(base - got)
        print("tests lost:", miss[:5])
        return rc0 == 0 and rc1 != 0 and not miss
    finally:
        sh("git checkout -- .", R); sh("bash /opt/vp/build.sh"); shutil.rmtree(tmp, ignore_errors=True)

def check(i, props=None):
    d = os.path.join(V, "seeded", i)
    clean()
    props = props or [json.load(open(os.path.join(d, "meta.json")))["property"]]
    rc, o = sh("git apply %s/patch.diff" % d, R); assert rc == 0, o
    out = []
    try:
        for p in props:
            rc, o = sh("VERIF_SEED=1 VERIF_TIER=quick python3 check.py " + p, V)
            ok = rc == 1 and "VIOLATION property=" + p in o
            out.append("caught by %s" % p if ok else "MISSED by %s" % p if rc == 0 else "ERROR in %s" % p)
            print(i, p, rc, "\n".join(o.splitlines()[:2])[:700])
    finally:
        sh("git checkout -- .", R)
    rp = os.path.join(V, "tools", "seeded_results.json")
    res = json.load(open(rp)) if os.path.exists(rp) else {}
    res[i] = ", ".join(out)
    json.dump(res, open(rp, "w"), indent=1, sort_keys=True)
    return out

if sys.argv[1] == "try":
    ok = full(sys.argv[2]); print("COUNTS" if ok else "DOES NOT COUNT"); check(sys.argv[2], sys.argv[3:])
elif sys.argv[1] == "check":
    check(sys.argv[2], sys.argv[3:])
elif sys.argv[1] == "demo":
    print("COUNTS" if full(sys.argv[2]) else "DOES NOT COUNT")
elif sys.argv[1] == "all":
    for i in sorted(os.listdir(os.path.join(V, "seeded"))):
        print(check(i))
