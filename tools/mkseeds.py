#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from tools/seeds/*.py and confirms each planted change
in a scratch copy of /repo: applies, builds, stable tests pass, demo 0 clean / !=0 patched.
usage: mkseeds.py [id...]"""
import json, os, subprocess, sys, shutil, tempfile, glob, textwrap
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = {}
def seed(id, prop, edits, demo, needs, breaks, race=False, imports=(), deps=()):
    SEEDS[id] = dict(prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, race=race, imports=imports)
for f in sorted(glob.glob(os.path.join(here, "tools", "seeds", "*.py"))):
    exec(open(f).read())
env = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod -buildvcs=false", CGO_ENABLED="1")
DEMO = '''#!/bin/bash
# Runs the demonstration test beside this script against the package in the current directory.
export HOME=${HOME:-/root} PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" CGO_ENABLED=1
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
echo "{\\"Replace\\":{\\"$PWD/zz_demo_test.go\\":\\"$d/demo_test.go.txt\\"}}" > "$t/overlay.json"
go test%s -vet=off -overlay "$t/overlay.json" -run '^TestDemo$' -count=1 -timeout 120s .
'''
def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
stable = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", [])) if os.path.exists("/opt/vp/BASELINE.json") else set()
want = sys.argv[1:] or sorted(SEEDS)
allok = True
for id in want:
    s = SEEDS[id]
    tmp = tempfile.mkdtemp(prefix="seed.")
    try:
        c = os.path.join(tmp, "r")
        subprocess.run(["git", "-C", "/repo", "worktree", "prune"])
        subprocess.run(["git", "clone", "-q", "/repo", c], check=True)
        for fn, old, new in s["edits"]:
            p = os.path.join(c, fn); t = open(p).read()
            if t.count(old) != 1:
                print(id, "EDIT MATCHES", t.count(old), repr(old[:60])); allok = False; break
            open(p, "w").write(t.replace(old, new))
        else:
            out = os.path.join(here, "seeded", id); shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
            sh("gofmt -l . 1>&2", c)
            diff = subprocess.run(["git", "-C", c, "diff"], stdout=subprocess.PIPE, text=True).stdout
            open(os.path.join(out, "patch.diff"), "w").write(diff)
            imp = sorted(set(["testing"]) | set(s["imports"]))
            open(os.path.join(out, "demo_test.go.txt"), "w").write("package visigoth\n\nimport (\n" + "".join(f'\t"{i}"\n' for i in imp) + ")\n" + textwrap.dedent(s["demo"]))
            open(os.path.join(out, "demo.sh"), "w").write(DEMO % (" -race" if s["race"] else ""))
            os.chmod(os.path.join(out, "demo.sh"), 0o755)
            json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
            b = sh("go build ./... && go test -race -vet=off -count=1 -timeout 100s ./...", c)
            d1 = sh(f"bash {out}/demo.sh", c)
            sh("git stash -q", c)
            d0 = sh(f"bash {out}/demo.sh", c)
            ok = b.returncode == 0 and d1.returncode != 0 and d0.returncode == 0
            why = [l for l in d1.stdout.split("\n") if "zz_demo" in l or "panic:" in l or "RACE" in l or "timed out" in l][:2]
            print(id, s["prop"], "ok" if ok else f"BAD build/tests={b.returncode} patched={d1.returncode} clean={d0.returncode}", why)
            if not ok:
                allok = False
                print(b.stdout[-1500:] if b.returncode else "", d0.stdout[-1500:] if d0.returncode else "")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
sys.exit(0 if allok else 1)
