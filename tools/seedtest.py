"""seedtest.py [-t] [-a] id...: apply each seeded change to /repo, build, run its demo (must fail), the check of
its property (must report it), with -t the stable tests, with -a all checks; undo.  Finally all demos on the clean tree."""
import json, os, subprocess, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
tests = "-t" in sys.argv
every = "-a" in sys.argv
ids = [a for a in sys.argv[1:] if not a.startswith("-")]
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
assert not sh("git -C /repo status --porcelain").stdout.strip()
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
claimed = [c["property"] for c in json.load(open(os.path.join(R, "MANIFEST.json")))["checks"]]
for i in ids:
    d = os.path.join(R, "seeded", i)
    m = json.load(open(os.path.join(d, "meta.json")))
    r = sh("git -C /repo apply %s/patch.diff" % d)
    if r.returncode:
        print(i, "DOES NOT APPLY", r.stdout); continue
    try:
        cpp = "trafficpp" in open(os.path.join(d, "patch.diff")).read()
        if cpp or tests:
            b = sh("bash /opt/vp/build.sh")
            if b.returncode:
                print(i, "BUILD FAILS", b.stdout[-1500:]); continue
        x = sh("bash %s/demo.sh" % d, cwd="/repo")
        print(i, m["property"], "demo rc", x.returncode, x.stdout.strip().split("\n")[-1][:150])
        if tests:
            sh("bash /opt/vp/test.sh /tmp/seedtest.json")
            ps = set(json.load(open("/tmp/seedtest.json"))["passed"])
            print("   stable tests", "ok" if stable <= ps else "FAIL %s" % (stable - ps))
        for c in (claimed if every else [m["property"]] if m["property"] in claimed else []):
            k = sh("/opt/venv/bin/python harness/check.py " + c, cwd=R)
            if k.returncode or not every:
                print("   check", c, "rc", k.returncode, "|".join(l.strip()[:110] for l in k.stdout.strip().split("\n")[-4:]))
    finally:
        sh("git -C /repo checkout -- .")
sh("bash /opt/vp/build.sh")
for i in ids:
    x = sh("bash %s/seeded/%s/demo.sh" % (R, i), cwd="/repo")
    if x.returncode:
        print(i, "DEMO FAILS ON CLEAN TREE", x.stdout[-800:])
print("done")
