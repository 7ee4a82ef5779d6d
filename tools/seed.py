#!/usr/bin/env python3
"""Development aid: plant a bug in scratch copies of /repo.

seed.py make ID        -- (re)create seeded/ID/patch.diff from /tmp/seeds/ID.py (EDITS) and verify
seed.py verify ID...   -- build, tests, demo clean/patched in scratch copies
seed.py check ID [CHECK] [tier] -- run a check against the patched copy
"""
import json, os, shutil, subprocess, sys, tempfile
V = "/verif"


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)


def copy(name):
    d = tempfile.mkdtemp(prefix="seed-%s-" % name, dir="/tmp")
    shutil.rmtree(d)
    sh("cp -a /repo %s" % d)
    sh("git checkout -q -- . ; git clean -qfd", cwd=d)
    return d


def scripts(d):
    for f in ("build.sh", "test.sh", "run_tests.py", "results.py"):
        s = open("/opt/vp/" + f).read().replace("/repo", d).replace("/opt/vp/build.sh", d + "/.vp-build.sh").replace("/opt/vp/run_tests.py", d + "/.vp-run_tests.py")
        open(os.path.join(d, ".vp-" + f), "w").write(s)


def demo(sid, d):
    t = tempfile.mkdtemp(prefix="demo-", dir="/tmp")
    sh("cp -a %s/seeded/%s/. %s/ && rm -f %s/patch.diff %s/meta.json" % (V, sid, t, t, t))
    r = sh("timeout 300 bash %s/demo.sh" % t, cwd=d)
    shutil.rmtree(t)
    return r


def verify(sid, quiet=False):
    d = copy(sid)
    try:
        scripts(d)
        r = sh("bash .vp-build.sh", cwd=d)
        if r.returncode: return "clean build failed"
        r = demo(sid, d)
        if r.returncode: return "demo fails on the clean tree: " + r.stdout[-500:]
        r = sh("git apply %s/seeded/%s/patch.diff" % (V, sid), cwd=d)
        if r.returncode: return "patch does not apply: " + r.stdout[-300:]
        r = sh("bash .vp-build.sh", cwd=d)
        if r.returncode: return "patched build failed: " + r.stdout[-800:]
        r = demo(sid, d)
        if r.returncode == 0: return "demo passes on the patched tree"
        msg = r.stdout.strip()[-200:]
        r = sh("bash .vp-test.sh %s/.vp-out.json" % d, cwd=d)
        try: o = json.load(open(d + "/.vp-out.json"))
        except Exception as e: return "no test output: %s %s" % (e, r.stdout[-400:])
        stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        bad = [t for t in stable if t not in o["passed"]]
        if bad: return "tests fail: %s" % bad[:6]
        return "OK (demo: %s)" % msg
    finally:
        shutil.rmtree(d, ignore_errors=True)


def make(sid):
    ns = {}
    exec(open("/tmp/seeds/%s.py" % sid).read(), ns)
    d = copy(sid)
    try:
        for f, old, new in ns["EDITS"]:
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(old) != 1: return "edit not unique (%d): %s: %s" % (s.count(old), f, old[:60])
            open(p, "w").write(s.replace(old, new))
        out = os.path.join(V, "seeded", sid)
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(subprocess.run(["git", "diff"], cwd=d, stdout=subprocess.PIPE, text=True).stdout)
        json.dump(dict(property=ns["PROPERTY"], needs=ns["NEEDS"], what_it_breaks=ns["BREAKS"]), open(out + "/meta.json", "w"), indent=1)
        cxx = ns.get("CXX")
        if ns.get("SH"):        # data file edits, in a copy of the tree that is rebuilt
            open(out + "/demo.c", "w").write(ns["DEMO"])
            open(out + "/demo.sh", "w").write(REBUILD_SH.replace("@EDITS@", ns["SH"]))
        else: open(out + ("/demo.cpp" if cxx else "/demo.c"), "w").write(ns["DEMO"])
        if not ns.get("SH"): open(out + "/demo.sh", "w").write(DEMO_SH.replace("gcc -g", "g++ -g").replace("demo.c\"", "demo.cpp\"") if cxx else DEMO_SH)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return verify(sid)


REBUILD_SH = """#!/bin/bash
# cwd: the repository, built. Exit 0 if the behaviour is right with other data.
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
cp -a "$PWD" "$work/tree" || exit 2
cd "$work/tree" || exit 2
@EDITS@
scons -Q -j4 stage/linux64/build/src/libfsdyn.a >"$work/log" 2>&1 </dev/null || { tail -5 "$work/log"; exit 1; }
gcc -g -O1 -w -D_GNU_SOURCE -iquote include "$here/demo.c" stage/linux64/build/src/libfsdyn.a -o "$work/demo" || exit 2
timeout 100 "$work/demo"
"""


DEMO_SH = """#!/bin/bash
# cwd: the repository, built. Exit 0 if the behaviour is right.
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
ln -s "$PWD/include" "$work/fsdyn" || exit 2
gcc -g -O1 -w -D_GNU_SOURCE -iquote include -I "$work" "$here/demo.c" stage/linux64/build/src/libfsdyn.a -o "$work/demo" || exit 2
cd "$work" && timeout 100 ./demo
"""


def check(sid, chk=None, tier="quick"):
    d = copy(sid)
    try:
        sh("git apply %s/seeded/%s/patch.diff" % (V, sid), cwd=d)
        p = chk or json.load(open("%s/seeded/%s/meta.json" % (V, sid)))["property"]
        r = sh("%s/bin/check %s %s" % (V, p, tier), env=dict(os.environ, FSMC_REPO=d))
        return "%s rc=%d %s" % (p, r.returncode, r.stdout.strip()[-400:])
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "make":
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(6) as ex:
            for s, r in zip(sys.argv[2:], ex.map(make, sys.argv[2:])): print(s, r, flush=True)
    elif sys.argv[1] == "verify":
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(6) as ex:
            for s, r in zip(sys.argv[2:], ex.map(verify, sys.argv[2:])): print(s, r, flush=True)
    else:
        print(check(*sys.argv[2:]))
