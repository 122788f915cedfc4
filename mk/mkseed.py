#!/usr/bin/env python3
"""Builds and confirms planted bugs from mk/seeds/*.py in a scratch copy.
usage: mkseed.py [-f] [id...]   (rebuilds only what is missing unless -f)"""
import glob, json, os, subprocess, sys, tempfile, shutil, importlib.util
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
BASE = "91ba500"
env = dict(os.environ, GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off")
DEMO = '''#!/bin/bash
# Run in the repository. Exits 0 if the property holds for this scenario.
d=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
t=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%%s":"%%s"}}' "$PWD/%(pkg)szz_demo_test.go" "$d/demo_test.go" >"$t/o.json"
go test -vet=off -count=1 -timeout 120s -overlay "$t/o.json" -run 'TestDemo$' ./%(pkg)s
'''
def sh(cmd, cwd, **k): return subprocess.run(cmd, cwd=cwd, env=env, shell=isinstance(cmd, str), capture_output=True, text=True, **k)
def load():
    out = []
    for f in sorted(glob.glob(os.path.join(here, "seeds", "*.py"))):
        spec = importlib.util.spec_from_file_location("s", f)
        m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
        out += m.SEEDS
    return out
def tests(cwd):
    r = sh("go test -vet=off -json -count=1 -overlay /opt/vp/overlay.json ./... 2>/dev/null" if cwd == "/repo" else "mv tests/buffer_test.go /tmp/_b.$$ 2>/dev/null; go test -vet=off -json -count=1 ./...; mv /tmp/_b.$$ tests/buffer_test.go", cwd)
    ok = set()
    for l in r.stdout.splitlines():
        try: e = json.loads(l)
        except Exception: continue
        if e.get("Action") == "pass" and e.get("Test"): ok.add(e["Package"] + "/" + e["Test"])
    want = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    return want - ok
def main():
    force = "-f" in sys.argv
    ids = [a for a in sys.argv[1:] if a != "-f"]
    for s in load():
        if ids and s["id"] not in ids: continue
        dst = os.path.join(root, "seeded", s["id"])
        if os.path.exists(os.path.join(dst, "patch.diff")) and not force and not ids: continue
        tmp = tempfile.mkdtemp(prefix="seed.", dir="/tmp"); w = os.path.join(tmp, "repo")
        try:
            sh(["cp", "-a", "/repo", w], "/")
            bad = None
            for f, old, new in s["edits"]:
                p = os.path.join(w, f); t = open(p).read()
                if t.count(old) != 1: bad = "%s: %d matches of %r" % (f, t.count(old), old[:60]); break
                open(p, "w").write(t.replace(old, new))
            if bad: print(s["id"], "BAD EDIT", bad); continue
            d = sh("git diff", w).stdout
            base = {f: set(sh(["git", "show", BASE + ":" + f], w).stdout.splitlines()) for f, _, _ in s["edits"]}
            cur = None; orig = True
            for l in d.splitlines():
                if l.startswith("--- a/"): cur = l[6:]
                elif l.startswith("-") and cur and not l.startswith("---"):
                    if l[1:].strip() and l[1:] not in base.get(cur, ()): orig = False
            if not orig: print(s["id"], "WARNING: touches lines of own commits")
            b = sh("go build ./...", w)
            if b.returncode: print(s["id"], "DOES NOT BUILD", b.stderr[:300]); continue
            miss = tests(w)
            if miss: print(s["id"], "BREAKS TESTS", sorted(miss)[:3]); continue
            os.makedirs(dst, exist_ok=True)
            open(os.path.join(dst, "demo.sh"), "w").write(DEMO % {"pkg": s.get("pkg", "")})
            os.chmod(os.path.join(dst, "demo.sh"), 0o755)
            pkg = s.get("pkg", "").strip("/") or "geo"
            open(os.path.join(dst, "demo_test.go"), "w").write("package %s\n\n%s" % (pkg, s["demo"].strip() + "\n"))
            sh(["gofmt", "-w", os.path.join(dst, "demo_test.go")], w)
            r1 = sh([os.path.join(dst, "demo.sh")], w)
            sh("git checkout -q -- .", w)
            r0 = sh([os.path.join(dst, "demo.sh")], w)
            if r0.returncode or not r1.returncode:
                print(s["id"], "DEMO WRONG: clean", r0.returncode, "patched", r1.returncode, (r0.stdout + r0.stderr)[-600:] if r0.returncode else r1.stdout[-300:])
                shutil.rmtree(dst); continue
            if "build failed" in r1.stdout or "setup failed" in r1.stdout:
                print(s["id"], "DEMO BUILD FAILED with patch", r1.stdout[-300:]); shutil.rmtree(dst); continue
            open(os.path.join(dst, "patch.diff"), "w").write(d)
            json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(dst, "meta.json"), "w"), indent=1, ensure_ascii=False)
            print(s["id"], "ok")
        finally:
            shutil.rmtree(tmp)
main()
