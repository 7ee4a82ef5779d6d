#!/usr/bin/env python3
"""Run every quick check on behaviour-preserving rewrites of /repo.

Each /verif/quiet/*.patch is applied to a scratch copy of /repo's HEAD; every
check must exit 0 there.  Usage: quiet.py [ID...]"""
import glob, os, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or ["C%02d" % i for i in range(1, 27)]
bad = 0
for patch in sorted(glob.glob(VERIF + "/quiet/*.patch")):
    d = tempfile.mkdtemp(prefix="quiet.")
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", d + "/r"])
        subprocess.check_call(["git", "-C", d + "/r", "apply", patch])
        for i in ids:
            p = subprocess.run([VERIF + "/bin/check", i, "quick"],
                               env=dict(os.environ, FSMC_REPO=d + "/r"),
                               stdout=subprocess.PIPE, text=True)
            last = p.stdout.strip().splitlines()[-1:]
            print(os.path.basename(patch), "quiet" if p.returncode == 0 else
                  "ALARM", *last, flush=True)
            bad += p.returncode != 0
    finally:
        shutil.rmtree(d)
sys.exit(bad != 0)
