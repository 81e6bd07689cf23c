"""handmut.py [-j n] [-o out] [file|id...]: hand-written small bugs (id, file, old, new, check expected to see it), each in a scratch copy of
SEED_BASE (default /repo); runs the named check (quick) and reports CAUGHT or MISSED. The lists are in tools/handmut/*.py (M = [...])."""
import json, os, runpy, shutil, subprocess, sys, tempfile, glob, argparse, time
from concurrent.futures import ThreadPoolExecutor
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = os.environ.get("SEED_BASE", "/repo")
PY = "/opt/venv/bin/python"
ap = argparse.ArgumentParser()
ap.add_argument("ids", nargs="*"); ap.add_argument("-j", type=int, default=2); ap.add_argument("-o", default="/tmp/hand.jsonl"); ap.add_argument("-n", action="store_true")
a = ap.parse_args()
M = []
for f in sorted(glob.glob(R + "/tools/handmut/*.py")):
    M += [(os.path.basename(f)[:-3],) + m for m in runpy.run_path(f)["M"]]
if a.ids:
    M = [m for m in M if m[0] in a.ids or m[1] in a.ids]
BUILD = r'''
import sys; sys.path.insert(0, "%s/harness"); import os; os.environ["UX_REPO"] = os.getcwd()
import uxenv, shutil; uxenv.finish_cpp_build()
import atexit; atexit._run_exitfuncs(); os._exit(0)
''' % R
def src(f):
    return subprocess.run(["git", "-C", BASE, "show", "HEAD:" + f], stdout=subprocess.PIPE, text=True, check=True).stdout
for m in M:
    n = src(m[2]).count(m[3])
    if n != 1:
        print("%s: %d matches" % (m[1], n)); sys.exit(1)
if a.n:
    sys.exit()
def one(m):
    _, i, f, old, new, checks = m
    t0 = time.time()
    t = tempfile.mkdtemp(prefix="hand_")
    res = []
    try:
        subprocess.run("git -C %s archive HEAD | tar -x -C %s" % (BASE, t), shell=True, check=True)
        s = src(f)
        open(os.path.join(t, f), "w").write(s.replace(old, new))
        env = dict(os.environ, UX_REPO=t, PYTHONDONTWRITEBYTECODE="1", VERIF_SEED=os.environ.get("VERIF_SEED", "1"), OMP_NUM_THREADS="2", UX_OUT=t + "/out")
        if f.endswith(".cpp"):
            b = subprocess.run([PY, "-c", BUILD], cwd=t, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if b.returncode:
                res.append("NOBUILD " + b.stdout[-400:])
        if not res:
            for c in checks.split():
                try:
                    r = subprocess.run([PY, R + "/harness/check.py", c, "quick"], cwd=R, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
                    res.append("%s %s" % (c, "MISSED" if r.returncode == 0 else "CAUGHT" if r.returncode == 1 and "VIOLATION property=" in r.stdout else "rc%d" % r.returncode)
                               + ("" if r.returncode == 0 else " " + " | ".join(r.stdout.strip().split("\n")[-3:-1])[:200]))
                except subprocess.TimeoutExpired:
                    res.append(c + " TIMEOUT")
    finally:
        shutil.rmtree(t, ignore_errors=True)
    open(a.o, "a").write(json.dumps(dict(id=i, res=res)) + "\n")
    print(i, "; ".join(res), int(time.time() - t0), flush=True)
with ThreadPoolExecutor(a.j) as ex:
    list(ex.map(one, M))
