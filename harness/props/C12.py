"""Repeatability: same seed same history; copies, files, threads, output change nothing."""
import json, os, random, subprocess, sys
import numpy as np
import core, uxenv, scen, rec, hist, pool
from scen import dt_of


def run_to(Wd, sc, vobj, eng, a, b):
    """steps a..b-1 with the interventions of the scenario"""
    for T in range(a, b):
        for e in sc["E"]:
            if e["at"] == T:
                rec.apply_event(Wd, sc, e, vobj, eng)
        Wd.exec_simulation(duration_t2=Wd.DELTAT)


def disturb(rng):
    np.random.seed(rng.randrange(2**31))
    random.seed(rng.randrange(2**31))
    np.random.rand(rng.randrange(1, 7))


def vmap(W2, vobj):
    """the same vehicles in a copy"""
    return {i: W2.VEHICLES[o.name] for i, o in vobj.items()}


def meddle(Wd, sc, rng):
    """change a world in ways that alter its future"""
    for l in Wd.LINKS:
        l.change_free_flow_speed(l.u * 0.5)
        if rng.random() < 0.4:
            l.capacity_out = 0.05
    o = sc["V"][0]
    try:
        Wd.addVehicle(sc["N"][o["o"]]["name"], sc["N"][o["d"]]["name"], Wd.T * Wd.DELTAT)
    except Exception:
        pass
    for n in Wd.NODES:
        n.signal_t = 0
    for v in list(Wd.VEHICLES.values())[:3]:
        v.links_prefer = []
    Wd.rng.random(5)


def job(item):
    eng, seed, kw, tid, variants = item
    rng = random.Random("c12/%s" % tid)
    sc = scen.generate(seed, engine=eng, **kw)
    n = sc["W"]["steps"]
    case = dict(id=tid, n=n, dt=1000, tol={"none": 0}, ref=[], runs=[])
    H = lambda W, v: hist.history(W, sc, v, eng, n) + [hist.results(W)]
    name = "ref"
    add = lambda nm, h: case["runs"].append(dict(name=nm, calls=[], hist=h))
    try:
        disturb(rng)
        Wd, vobj = rec.build(sc, eng)
        run_to(Wd, sc, vobj, eng, 0, n)
        case["ref"] = H(Wd, vobj)
        for v in variants:
            name = v
            if v == "again":
                disturb(rng)
                W, o = rec.build(sc, eng)
                for T in range(n):
                    run_to(W, sc, o, eng, T, T + 1)
                    if T % 5 == 0:
                        disturb(rng)
                add(v, H(W, o))
            elif v == "interleaved":
                # two worlds of the same scenario and a third one, advanced in turn
                sc3 = scen.generate(seed + 999, engine=eng, **kw)
                Wa, oa = rec.build(sc, eng)
                W3, o3 = rec.build(sc3, eng)
                Wb, ob = rec.build(sc, eng)
                for T in range(n):
                    run_to(Wa, sc, oa, eng, T, T + 1)
                    if T < sc3["W"]["steps"]:
                        run_to(W3, sc3, o3, eng, T, T + 1)
                    run_to(Wb, sc, ob, eng, T, T + 1)
                add(v + "-1", H(Wa, oa))
                add(v + "-2", H(Wb, ob))
            elif v == "print":
                with hist.Quiet():
                    W, o = rec.build(sc, eng, print_mode=1, show_progress=1, show_progress_deltat=dt_of(sc) * rng.choice([1, 3, 7]))
                    run_to(W, sc, o, eng, 0, n)
                add(v, H(W, o))
            elif v == "noprogress":
                with hist.Quiet():
                    W, o = rec.build(sc, eng, print_mode=1, show_progress=0, save_mode=1)
                    run_to(W, sc, o, eng, 0, n)
                add(v, H(W, o))
            elif v == "copy":
                k = rng.randint(1, n - 2)
                W, o = rec.build(sc, eng)
                run_to(W, sc, o, eng, 0, k)
                W2 = W.copy()
                o2 = vmap(W2, o)
                W3 = W2.copy()
                o3 = vmap(W3, o2)
                order = rng.choice([0, 1, 2])
                if order == 0:
                    run_to(W, sc, o, eng, k, n)
                    run_to(W2, sc, o2, eng, k, n)
                elif order == 1:
                    run_to(W2, sc, o2, eng, k, n)
                    run_to(W, sc, o, eng, k, n)
                else:
                    for T in range(k, n):
                        run_to(W2, sc, o2, eng, T, T + 1)
                        run_to(W, sc, o, eng, T, T + 1)
                run_to(W3, sc, o3, eng, k, n)
                add("copy-original", H(W, o))
                add("copy-copy", H(W2, o2))
                add("copy-copycopy", H(W3, o3))
            elif v == "copymeddle":
                k = rng.randint(1, n - 2)
                W, o = rec.build(sc, eng)
                run_to(W, sc, o, eng, 0, k)
                W2 = W.copy()
                o2 = vmap(W2, o)
                if rng.random() < 0.5:
                    meddle(W2, sc, rng)
                    run_to(W2, dict(sc, E=[]), o2, eng, k, k + 3)
                    run_to(W, sc, o, eng, k, n)
                    add(v + "-copy", H(W, o))
                else:
                    meddle(W, sc, rng)
                    run_to(W, dict(sc, E=[]), o, eng, k, k + 2 if k + 2 <= n else n)
                    run_to(W2, sc, o2, eng, k, n)
                    add(v + "-original", H(W2, o2))
            elif v in ("file", "filestart"):
                k = rng.randint(1, n - 2) if v == "file" else 0
                W, o = rec.build(sc, eng)
                run_to(W, sc, o, eng, 0, k)
                fn = os.path.join(uxenv.scratch(), "w%d_%d" % (os.getpid(), seed))
                W.save(fn)
                import uxsim
                import dill
                with open(fn + ".pkl", "rb") as f:
                    W2 = dill.load(f)
                os.unlink(fn + ".pkl")
                o2 = vmap(W2, o)
                run_to(W2, sc, o2, eng, k, n)
                if k:
                    run_to(W, sc, o, eng, k, n)
                    add(v + "-original", H(W, o))
                add(v, H(W2, o2))
            elif v.startswith("threads"):
                W, o = rec.build(sc, eng, threads=int(v[7:]))
                run_to(W, sc, o, eng, 0, n)
                add(v, H(W, o))
            elif v == "single":
                # one call for the whole run, many threads
                if sc["E"]:
                    continue
                W, o = rec.build(sc, eng, threads=3)
                W.exec_simulation()
                add(v, H(W, o))
    except uxenv.MachineryError:
        raise
    except Exception as e:
        import traceback
        return case, "%s: %s: %s %s" % (name, type(e).__name__, str(e)[:300], traceback.format_exc()[-400:])
    return case, ""


def biggrid(seed):
    """a larger network: enough work per time step for threads to interleave"""
    rng = random.Random(seed)
    sc = scen.new(deltan=5, rt=1, det=False, seed=seed, steps=70, duo_time=25, duo_noise=0.05)
    sc["exact"] = False
    k = 6
    ns = [[scen.add_node(sc, sig=[20, 15] if rng.random() < .3 else None, x=i * 500., y=j * 500.) for j in range(k)] for i in range(k)]
    for i in range(k):
        for j in range(k):
            for a, b in ((i + 1, j), (i, j + 1)):
                if a < k and b < k:
                    for s, e in ((ns[i][j], ns[a][b]), (ns[a][b], ns[i][j])):
                        scen.add_link(sc, s, e, 500 + rng.randrange(200), u=rng.choice([15, 20, 25]), sg=(0,) if a != i else (1,), lanes=rng.choice([1, 2]))
    fl = [n for r in ns for n in r]
    for _ in range(450):
        o, d = rng.sample(fl, 2)
        scen.add_veh(sc, o, d, rng.randrange(0, 25))
    return sc


def squeeze(h):
    import zlib
    return [{k: [zlib.crc32(json.dumps(v).encode()) & 0x7fffffff] for k, v in e.items()} for e in h]


def bigjob(item):
    seed, tid = item
    sc = biggrid(seed)
    n = sc["W"]["steps"]
    case = dict(id=tid, n=n, dt=1000, tol={"none": 0}, ref=[], runs=[])
    for th in (1, 8, 4, -1, 2, 8):
        W, o = rec.build(sc, "cpp", threads=th)
        W.exec_simulation()
        h = squeeze(hist.history(W, sc, o, "cpp", n) + [hist.results(W)])
        if not case["ref"]:
            case["ref"] = h
        else:
            case["runs"].append(dict(name="threads%d" % th, calls=[], hist=h))
    return case, ""


PY = ["again", "interleaved", "print", "noprogress", "copy", "copymeddle", "file", "filestart"]
CPP = ["again", "interleaved", "print", "noprogress", "threads2", "threads3", "threads8", "threads-1", "single"]
FAMS = [("py", 36, {}), ("py", 10, dict(exact=False, events=True)), ("py", 12, dict(det=False, topo=["grid", "tworoute", "rand"], big=True)),
        ("cpp", 30, {}), ("cpp", 10, dict(exact=False, events=True)), ("cpp", 30, dict(det=False, topo=["grid", "tworoute", "rand"], big=True)),
        ("cpp", 10, dict(det=True, topo=["grid", "rand"], big=True))]


def run(ctx):
    items = []
    for fi, (eng, cnt, kw) in enumerate(FAMS):
        for k in range(ctx.n(cnt * 2, cnt * 12)):
            seed = (ctx.seed * 37 + fi) * 10007 + k
            kk = dict(kw)
            if isinstance(kw.get("topo"), list):
                kk["topo"] = kw["topo"][k % len(kw["topo"])]
            vs = PY if eng == "py" else CPP
            rng = ctx.rng(seed)
            vs = rng.sample(vs, 4)
            items.append((eng, seed, kk, "%s/%d/%s" % (eng, seed, json.dumps(kk)), vs))
    for eng in ("py", "cpp"):
        uxenv.load(cpp=eng == "cpp")
        its = [i for i in items if i[0] == eng]
        cases = []
        # the same in other processes with other hash seeds
        procs = []
        for p, hs in enumerate(("1", "977", "31337")):
            f = os.path.join(uxenv.scratch(), "proc%d" % p)
            sub = its[p::7][:ctx.n(12, 80)]
            with open(f, "w") as h:
                json.dump([[i[0], i[1], i[2]] for i in sub], h)
            pr = subprocess.Popen([sys.executable, os.path.join(core.HERE, "oneproc.py"), f, f + ".out", uxenv._cpp_so if eng == "cpp" else ""],
                                  env=dict(os.environ, PYTHONHASHSEED=hs), stdout=subprocess.DEVNULL)
            procs.append((pr, f, sub))
        other = {}
        for it, r in zip(its, pool.run(job, its, per_item=120, total=1500)):
            if isinstance(r, pool.Died):
                ctx.viol("crash", it[3], r.why)
                continue
            c, err = r
            if err:
                ctx.viol("crash", it[3], err)
            else:
                cases.append(c)
                for x in c["runs"]:
                    ctx.note("runs_" + x["name"])
        for pr, f, sub in procs:
            if pr.wait() != 0:
                ctx.viol("crash", "process", "a run in a process of its own failed")
                continue
            with open(f + ".out") as h:
                for it, (hh, err) in zip(sub, json.load(h)):
                    if err:
                        ctx.viol("crash", it[3], "own process: " + err)
                    other[it[3]] = hh
        for c in cases:
            if c["id"] in other:
                c["runs"].append(dict(name="process", calls=[], hist=other[c["id"]]))
                ctx.note("runs_process")
        if eng == "cpp":
            bi = [(ctx.seed * 101 + k, "big/%d" % (ctx.seed * 101 + k)) for k in range(ctx.n(4, 30))]
            for it, r in zip(bi, pool.run(bigjob, bi, procs=2, per_item=200, total=1500)):
                if isinstance(r, pool.Died):
                    ctx.viol("crash", it[1], r.why)
                else:
                    cases.append(r[0])
        for cid, cl, rn, st in hist.judge(ctx, cases):
            ctx.viol(cl, cid, "%s at %s" % (rn, st), dict(case=cid))
        if cases:
            ctx.sample(dict(case=cases[0]["id"], runs=[x["name"] for x in cases[0]["runs"]]))
