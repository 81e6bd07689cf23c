"""mkseed.py <definition.py>...: build /verif/seeded/<id>/ from a definition file (edits + demo).
A definition sets ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python source)."""
import json, os, runpy, shutil, subprocess, sys, tempfile
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRE = '''import os, sys
sys.dont_write_bytecode = True
os.environ["MPLBACKEND"] = "Agg"
sys.path.insert(0, os.getcwd())
import warnings; warnings.simplefilter("ignore")
import numpy as np
import uxsim, uxsim.analyzer
uxsim.analyzer.load_font_data = lambda *a, **k: b""
from uxsim import *
Q = dict(print_mode=0, save_mode=0, show_mode=0)
def expect(c, msg=""):
    if not c:
        print("FAILED", msg); sys.stdout.flush(); os._exit(1)
'''
SH = '''#!/bin/bash
export QT_QPA_PLATFORM=offscreen MPLBACKEND=Agg
exec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''
for f in sys.argv[1:]:
    d = runpy.run_path(f)
    out = os.path.join(R, "seeded", d["ID"])
    os.makedirs(out, exist_ok=True)
    t = tempfile.mkdtemp(prefix="seed_")
    try:
        subprocess.run("git -C %s archive HEAD uxsim | tar -x -C %s && cd %s && git init -q && git add -A && git -c user.name=a -c user.email=a@b commit -qm x" % (os.environ.get("SEED_BASE", "/repo"), t, t),
                       shell=True, check=True)
        for fn, old, new in d["EDITS"]:
            p = os.path.join(t, fn)
            s = open(p).read()
            if s.count(old) != 1:
                raise SystemExit("%s: %d matches of %r" % (f, s.count(old), old))
            open(p, "w").write(s.replace(old, new))
            o = subprocess.run(["git", "-C", "/repo", "show", "f8c1fac:" + fn], stdout=subprocess.PIPE, text=True).stdout.split("\n")
            for l in old.split("\n"):
                if l not in o and l not in new.split("\n"):
                    print("  WARNING: not a line of the original repository:", l)
        diff = subprocess.run(["git", "diff"], cwd=t, stdout=subprocess.PIPE, check=True).stdout
        open(os.path.join(out, "patch.diff"), "wb").write(diff)
    finally:
        shutil.rmtree(t)
    open(os.path.join(out, "demo.py"), "w").write(PRE + d["DEMO"] + "\nprint('ok')\nsys.stdout.flush()\nos._exit(0)\n")
    p = os.path.join(out, "demo.sh")
    open(p, "w").write(SH)
    os.chmod(p, 0o755)
    json.dump(dict(property=d["PROPERTY"], needs=d["NEEDS"], what_it_breaks=d["BREAKS"]), open(os.path.join(out, "meta.json"), "w"), indent=1)
    print(d["ID"], len(diff))
