"""seedcopy.py [-c Cxx,Cyy] id...: like seedtest.py -t, but each change in its own scratch copy of SEED_BASE (default /repo) HEAD; /repo is not touched.
Applies the change, builds the C++ engine, runs its demo (must fail; must pass without the change), the stable tests and the check of its property."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = os.environ.get("SEED_BASE", "/repo")
args = sys.argv[1:]
checks = None
if args and args[0] == "-c":
    checks = args[1].split(","); args = args[2:]
STRIP = "import sys,os,runpy; sys.meta_path[:]=[m for m in sys.meta_path if 'ScikitBuild' not in type(m).__name__]; sys.path[:]=[p for p in sys.path if p!='/repo']; sys.path.insert(0,os.getcwd()); "
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", QT_QPA_PLATFORM="offscreen", OMP_NUM_THREADS="2")
stable = [s.replace("tests.", "tests/", 1).replace("::", ".py::", 1) for s in json.load(open("/opt/vp/BASELINE.json"))["stable"]]
PY = "/opt/venv/bin/python"
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=k.pop("env", ENV), **k)
BUILD = r'''
import sys; sys.path.insert(0, "%s/harness"); import os; os.environ["UX_REPO"] = os.getcwd()
import uxenv, shutil; shutil.copy(uxenv.finish_cpp_build(), "uxsim/uxsim_cpp.so")
import atexit; atexit._run_exitfuncs(); os._exit(0)
''' % R
def export(t):
    sh("git -C %s archive HEAD | tar -x -C %s" % (BASE, t))
def build(t):
    return subprocess.run([PY, "-c", BUILD], cwd=t, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
def demo(t, i):
    return subprocess.run([PY, "-c", STRIP + "sys.argv=['%s/seeded/%s/demo.py']; runpy.run_path(sys.argv[0], run_name='__main__')" % (R, i)], cwd=t, env=ENV,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
clean = tempfile.mkdtemp(prefix="seedclean_"); export(clean); b = build(clean); assert b.returncode == 0, b.stdout
def one(i):
    out = []
    t = tempfile.mkdtemp(prefix="seedcopy_")
    try:
        export(t)
        d = os.path.join(R, "seeded", i)
        m = json.load(open(d + "/meta.json"))
        r = sh("git init -q . && git apply %s/patch.diff" % d, cwd=t)
        if r.returncode: return [i + " DOES NOT APPLY " + r.stdout]
        if "trafficpp" in open(d + "/patch.diff").read():
            b = build(t)
            if b.returncode or not os.path.exists(t + "/uxsim/uxsim_cpp.so"): return [i + " BUILD FAILS " + b.stdout[-800:]]
        else:
            shutil.copy(clean + "/uxsim/uxsim_cpp.so", t + "/uxsim/uxsim_cpp.so")
        x, y = demo(t, i), demo(clean, i)
        out.append("%s %s demo rc %d (%s) clean %d%s" % (i, m["property"], x.returncode, x.stdout.strip().split("\n")[-1][:120], y.returncode, y.stdout[-500:] if y.returncode else ""))
        s = subprocess.run([PY, "-c", STRIP + "import pytest; sys.exit(pytest.main(['-q','-p','no:cacheprovider']+%r))" % stable], cwd=t, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        out.append("   stable tests " + ("ok" if s.returncode == 0 else "FAIL " + s.stdout[-700:]))
        for c in checks or [m["property"]]:
            k = subprocess.run([PY, "harness/check.py", c], cwd=R, env=dict(ENV, UX_REPO=t), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            out.append("   check %s rc %d %s" % (c, k.returncode, "|".join(l.strip()[:110] for l in k.stdout.strip().split("\n")[-4:])))
    finally:
        shutil.rmtree(t)
    return out
try:
    with ThreadPoolExecutor(2) as ex:
        for o in ex.map(one, args):
            print("\n".join(o)); sys.stdout.flush()
finally:
    shutil.rmtree(clean)
