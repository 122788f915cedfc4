#!/usr/bin/env python3
"""Behaviour-preserving edits (mk/refactors/*.go.txt): every check must stay quiet.
A file holds blocks "=== id file" followed by whole functions that replace the
ones of the same name (receiver included); new functions are appended."""
import glob, os, re, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
gv = os.environ.get("GV", "/tmp/gv")
env0 = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GEO_SPEC=root + "/spec", GEO_VERIF="/tmp/none")
def blocks():
    for f in sorted(glob.glob(root + "/mk/refactors/*.txt")):
        cur = None
        for l in open(f):
            if l.startswith("=== "):
                if cur: yield cur
                w = l.split(); cur = (w[1], w[2], [])
            elif cur: cur[2].append(l)
        if cur: yield cur
def funcs(text):
    return re.findall(r"(?m)^func [^\n]*\}\n|^func (?:.|\n)*?^}\n", text)
def sig(f):
    m = re.match(r"func (\(\w+ (\*?\w+)\) )?(\w+)\(", f)
    return ((m.group(2) or "").lstrip("*"), m.group(3))
def one(b):
    name, file, lines = b
    tmp = tempfile.mkdtemp(prefix="ref.", dir="/tmp")
    try:
        w = tmp + "/repo"
        subprocess.run(["cp", "-a", "/repo", w], check=True)
        p = w + "/" + file; t = open(p).read(); new = "".join(lines)
        old = {sig(f): f for f in funcs(t)}
        for f in funcs(new):
            s = sig(f)
            if s in old: t = t.replace(old[s], f)
            else: t += "\n" + f
        for v in re.findall(r"(?m)^var .*$", new): t += "\n" + v + "\n"
        imps = re.findall(r'(?m)^import "([^"]+)"', new)
        for i in imps:
            if '"%s"' % i not in t:
                t = re.sub(r"(?m)^package (\w+)\n", r'package \1\n\nimport "%s"\n' % i, t, 1)
        open(p, "w").write(t)
        r = subprocess.run("go build ./... && go test -vet=off -count=1 ./geojson ./wkt 2>&1 | tail -5", shell=True, cwd=w, env=env0, capture_output=True, text=True)
        if "build" in r.stderr or r.returncode or "FAIL" in r.stdout: return name, "BROKEN", (r.stdout + r.stderr)[:600]
        env = dict(env0, GEO_REPO=w)
        r = subprocess.run([gv, "all"], cwd="/tmp", env=env, capture_output=True, text=True, errors="replace", timeout=900)
        bad = [l[:int(os.environ.get("W", "400"))] for l in r.stdout.splitlines() if l.startswith("violated")]
        und = [l[:int(os.environ.get("W","120"))] for l in r.stdout.splitlines() if l.startswith("undecided")]
        if r.returncode not in (0, 1): return name, "CRASH", r.stderr[-400:]
        return name, "ALARM" if bad else ("quiet" if not und else "quiet, %d undecided" % len(und)), "\n".join(bad or (und if len(sys.argv) > 1 else []))
    except subprocess.TimeoutExpired:
        return name, "TIMEOUT", ""
    finally:
        shutil.rmtree(tmp)
bs = [b for b in blocks() if len(sys.argv) < 2 or b[0] in sys.argv[1:]]
with ThreadPoolExecutor(6) as ex:
    for n, v, out in ex.map(one, bs):
        print("%-28s %s" % (n, v))
        if out: print(out)
