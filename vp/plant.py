#!/usr/bin/env python3
"""plant.py ID [--check]: confirm a planted change in a scratch copy of /repo (development tool, not part of any check).
/verif/seeded/ID holds patch.diff, meta.json and demo.rs (a `pub fn demo()` using the kit); this writes demo.sh and kit/
beside them, then: patch applies, builds, the stable tests pass, demo passes without and fails with the patch; with
--check, what the property's own check says.  --bless FILE: take `git diff` of the scratch copy as patch.diff first."""
import json, os, shutil, subprocess, sys
V = "/verif"
S = os.environ.get("PLANT_DIR", "/tmp/plant")
sys.path.insert(0, V + "/vp")

DEMO = r'''#!/bin/bash
# exit 0: the code behaves; nonzero: it does not. Builds demo.rs against the tree in the current directory, in a scratch folder.
here=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf -- "$T"' EXIT
cp -r "$here/kit" "$T/kit"
VP_REPO=$PWD VP_BUILD=$T/b python3 "$T/kit/run.py"
'''
RUN = r'''import os, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(here, "vp"))
import build
build.mirror()
b = build.build_replay()
p = subprocess.run([b, "h_demo"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=200)
print(p.stdout[-1500:])
sys.exit(0 if p.returncode == 0 and "DONE" in p.stdout else 1)
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def scratch():
    os.makedirs(S, exist_ok=True)
    if not os.path.exists(S + "/repo"):
        sh("cp -a /repo %s/repo" % S)
    sh("git -C %s/repo checkout -q -- . ; git -C %s/repo fetch -q /repo HEAD && git -C %s/repo reset -q --hard FETCH_HEAD" % (S, S, S))
    if not os.path.exists(S + "/ws"):
        sh("cp -a /opt/vara-ws %s/ws" % S)
    for f in ("build.sh", "test.sh", "results.py"):
        t = open("/opt/vp/" + f).read()
        t = t.replace("/opt/vara-ws", S + "/ws").replace("/opt/vara-logs", S + "/logs").replace("/repo/", S + "/repo/").replace("/opt/vp/build.sh", S + "/build.sh")
        open(S + "/" + f, "w").write(t)


def kit(d):
    k = d + "/kit"
    shutil.rmtree(k, ignore_errors=True)
    os.makedirs(k + "/vp")
    shutil.copy(V + "/vp/build.py", k + "/vp/build.py")
    os.makedirs(k + "/harness/src")
    for f in ("Cargo.toml", "Cargo.lock", "src/vk.rs", "src/kit.rs", "src/main.rs", "src/maps.rs", "src/world.rs", "src/net.rs"):
        shutil.copy(V + "/harness/" + f, k + "/harness/" + f)
    shutil.copy(d + "/demo.rs", k + "/harness/src/d_demo.rs")
    open(k + "/run.py", "w").write(RUN)
    open(d + "/demo.sh", "w").write(DEMO)
    os.chmod(d + "/demo.sh", 0o755)


def main():
    i = sys.argv[1]
    d = V + "/seeded/" + i
    scratch()
    kit(d)
    R = S + "/repo"
    meta = json.load(open(d + "/meta.json"))
    if "--only-check" not in sys.argv:
        p = sh("bash %s/demo.sh" % d, cwd=R)
        if p.returncode != 0:
            print("demo fails on the unchanged tree:\n" + p.stdout[-3000:])
            return 1
    p = sh("git apply %s/patch.diff" % d, cwd=R)
    if p.returncode:
        print("patch does not apply", p.stdout)
        return 1
    if "--only-check" not in sys.argv:
        p = sh("bash %s/demo.sh" % d, cwd=R)
        print("demo with the patch: rc", p.returncode, p.stdout.strip()[-400:])
        if p.returncode == 0:
            print("NOT BROKEN")
            return 1
    if "--notest" not in sys.argv and "--only-check" not in sys.argv:
        p = sh("bash %s/build.sh" % S)
        if p.returncode:
            print("does not build", p.stdout[-3000:])
            return 1
        sh("bash %s/test.sh %s/out.json" % (S, S))
        ok = set(json.load(open(S + "/out.json"))["passed"])
        base = json.load(open("/opt/vp/BASELINE.json"))
        st = base["stable"] if isinstance(base["stable"], list) else []
        miss = [t for t in st if t not in ok]
        print("tests: %d stable, %d missing %s" % (len(st), len(miss), miss[:5]))
        if miss:
            print("TESTS FAIL")
            return 1
    if "--check" in sys.argv or "--only-check" in sys.argv:
        e = dict(os.environ, VP_REPO=R, VP_BUILD=S + "/b")
        p = sh("python3 check.py %s" % meta["property"], cwd=V, env=e)
        print("check: rc", p.returncode)
        print(p.stdout[-1500:])
        print("CAUGHT" if p.returncode == 1 and "VIOLATION property=" + meta["property"] in p.stdout else "MISSED", i)
    sh("git -C %s checkout -q -- ." % R)


sys.exit(main())
