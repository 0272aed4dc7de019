#!/usr/bin/env python3
"""Development aid: runs checks against planted bugs, on copies. Not used by any check.

  tools/plant.py [--tests] [--check C02 ...] [ID ...]
"""
import argparse, concurrent.futures, json, os, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("--tests", action="store_true"); ap.add_argument("--check", action="append"); ap.add_argument("-j", type=int, default=3)
ap.add_argument("--dir", default=os.path.join(VERIF, "seeded"))
ap.add_argument("ids", nargs="*")
a = ap.parse_args()
ids = a.ids or sorted(os.listdir(a.dir))

def one(i):
    d = os.path.join(a.dir, i)
    with open(os.path.join(d, "meta.json")) as f: prop = json.load(f)["property"]
    tmp = tempfile.mkdtemp(prefix="plant", dir="/tmp")
    try:
        repo, verif = tmp + "/repo", tmp + "/verif"
        subprocess.check_call(["git", "clone", "-q", "/repo", repo])
        shutil.copytree(VERIF, verif, ignore=shutil.ignore_patterns(".git", "seeded"))
        r = subprocess.run(["git", "-C", repo, "apply", d + "/patch.diff"])
        if r.returncode: return i, "does not apply"
        res = []
        for c in a.check or [prop]:
            r = subprocess.run([verif + "/check", c], cwd=verif, env=dict(os.environ, MC_REPO=repo, VERIF_SEED="1", VERIF_TIER="quick"),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=%s " % c)]
            res.append("%s:%s" % (c, "caught" if r.returncode == 1 and v else "quiet" if r.returncode == 0 else "ERROR rc=%d %s" % (r.returncode, r.stdout[-500:])))
        return i, " ".join(res)
    finally:
        shutil.rmtree(tmp)

with concurrent.futures.ThreadPoolExecutor(a.j) as ex:
    for i, r in ex.map(one, ids):
        print("%-26s %s" % (i, r), flush=True)
if a.tests:
    with open("/opt/vp/BASELINE.json") as f: stable = set(json.load(f)["stable"])
    for i in ids:
        subprocess.check_call(["git", "-C", "/repo", "apply", os.path.join(a.dir, i, "patch.diff")])
        try:
            b = subprocess.run(["bash", "/opt/vp/build.sh"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            subprocess.run(["bash", "/opt/vp/test.sh", "/tmp/plant_tests.json"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            with open("/tmp/plant_tests.json") as f: t = json.load(f)
            miss = stable - set(t.get("passed", []))
            print("%-26s build rc=%d, stable tests failing: %d" % (i, b.returncode, len(miss)), flush=True)
        finally:
            subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
