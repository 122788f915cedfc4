#!/usr/bin/env python3
"""Runs each planted bug's check against a patched scratch copy (GEO_REPO).
usage: tryseeds.py [id...]  -- /repo itself is not touched"""
import glob, json, os, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
subprocess.run([root + "/check.sh", "--build"], check=True)
def one(d):
    m = json.load(open(d + "/meta.json")); p = m["property"]
    tmp = tempfile.mkdtemp(prefix="try.", dir="/tmp")
    try:
        subprocess.run(["cp", "-a", "/repo", tmp + "/repo"], check=True)
        r = subprocess.run(["git", "apply", d + "/patch.diff"], cwd=tmp + "/repo", capture_output=True, text=True)
        if r.returncode: return os.path.basename(d), p, "PATCH", r.stderr
        os.mkdir(tmp + "/v"); os.symlink(root + "/known_findings.txt", tmp + "/v/known_findings.txt")
        env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GEO_REPO=tmp + "/repo", GEO_VERIF=tmp + "/v", GEO_SPEC=root + "/spec")
        r = subprocess.run([root + "/bin/geoverif", "check", p, "quick"], cwd="/tmp", env=env, capture_output=True, text=True, errors="replace", timeout=900)
        return os.path.basename(d), p, {0: "missed", 1: "CAUGHT"}.get(r.returncode, "ERR%d" % r.returncode), r.stdout[-900:]
    finally:
        shutil.rmtree(tmp)
ds = [d for d in sorted(glob.glob(root + "/seeded/*")) if len(sys.argv) < 2 or os.path.basename(d) in sys.argv[1:]]
with ThreadPoolExecutor(6) as ex:
    for n, p, v, out in ex.map(one, ds):
        print("%-28s %s %s" % (n, p, v))
        if v != "CAUGHT" or len(sys.argv) > 1: print(out)
