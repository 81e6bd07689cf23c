"""Runs scenarios in a process of its own and writes their histories."""
import json, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import uxenv
if len(sys.argv) > 3 and sys.argv[3]:
    uxenv._cpp_so = sys.argv[3]
import scen, rec, hist
items = json.load(open(sys.argv[1]))
out = []
for eng, seed, kw in items:
    uxenv.load(cpp=eng == "cpp")
    try:
        sc = scen.generate(seed, engine=eng, **kw)
        Wd, vobj = rec.build(sc, eng)
        n = sc["W"]["steps"]
        for T in range(n):
            for e in sc["E"]:
                if e["at"] == T:
                    rec.apply_event(Wd, sc, e, vobj, eng)
            Wd.exec_simulation(duration_t2=Wd.DELTAT)
        out.append([hist.history(Wd, sc, vobj, eng, n) + [hist.results(Wd)], ""])
    except Exception as e:
        out.append([[], "%s: %s" % (type(e).__name__, e)])
json.dump(out, open(sys.argv[2], "w"))
sys.stdout.flush()
os._exit(0)
