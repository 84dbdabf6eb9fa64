#!/usr/bin/env python3
"""Runs checks on the single-edit mutants that pass the tests: run.py FILES OUT [JOBS]"""
import subprocess, os, sys, shutil, tempfile, threading, random
from concurrent.futures import ThreadPoolExecutor
REL = {
    "repos_repo.go": "C01 C02 C03 C04 C05 C06 C08 C10 C11 C12 C13 C15 C09 C16 C14 C21 C07",
    "index_memory_index.go": "C17 C14 C15 C16 C23 C31 C24",
    "search_hits_search.go": "C14 C15 C19 C20 C21 C24",
    "search_linear_search.go": "C14 C15 C21 C18 C24",
    "search_noop_search.go": "C14 C22 C24",
    "search_result.go": "C20 C24",
    "stemmer_spanish_snowball.go": "C30",
    "search_result_easyjson.go": "C29",
}
files, out = sys.argv[1].split(","), sys.argv[2]
jobs = int(sys.argv[3]) if len(sys.argv) > 3 else 3
base = tempfile.mkdtemp(prefix="vgmutants")
muts = []
subprocess.run(["go", "build", "-o", os.path.join(base, "mutate"), os.path.join(os.path.dirname(os.path.abspath(__file__)), "mutate.go")], check=True)
for f in files:
    d = os.path.join(base, "m_" + f)
    os.mkdir(d)
    o = subprocess.run([os.path.join(base, "mutate"), "/repo/" + f, d], capture_output=True, text=True)
    for l in o.stdout.splitlines():
        n, w = l.split("\t", 1)
        muts.append((f, os.path.join(d, n), w))
random.seed(7)
random.shuffle(muts)
print(len(muts), "mutants", flush=True)
log = open(out, "w")
loc, cnt, lock = threading.local(), [0], threading.Lock()

def tree():
    if not hasattr(loc, "d"):
        with lock:
            cnt[0] += 1
            loc.d = os.path.join(base, "t%d" % cnt[0])
        subprocess.run(["git", "clone", "-q", "/repo", loc.d], check=True)
    return loc.d

def one(m):
    f, p, w = m
    d = tree()
    shutil.copy(p, os.path.join(d, f))
    try:
        try:
            t = subprocess.run("go vet . && timeout 60 go test -count=1 -timeout 20s . 2>&1 | tail -3", shell=True, cwd=d, capture_output=True, text=True)
        except subprocess.TimeoutExpired:
            return
        if not t.stdout.startswith("ok"):
            return
        caught, nd = "", 0
        for q in REL.get(f, "C14 C23 C24 C25 C26 C27 C28").split():
            try:
                o = subprocess.run(["/tmp/vgcheck", "-repo", d, "-verif", d + "v", "-prop", q], capture_output=True, text=True, timeout=800)
            except subprocess.TimeoutExpired:
                caught += " timeout:" + q
                continue
            nd += (o.stdout + o.stderr).count("NOT-DEC")
            if o.returncode != 0:
                caught = q
                break
        with lock:
            log.write("%s %s %s caught=%s nd=%d\n" % ("CAUGHT" if caught else "MISSED", os.path.basename(p), w, caught, nd))
            log.flush()
    finally:
        subprocess.run(["git", "checkout", "-q", "."], cwd=d)

with ThreadPoolExecutor(jobs) as ex:
    list(ex.map(one, muts))
shutil.rmtree(base)
log.write("DONE\n")
