"""Demand definitions create the vehicles they describe."""
import json, random
import numpy as np
import uxenv, pool, judge, rec

KINDS = ["one", "one", "point", "area", "nodes", "area2", "area2", "nodes2", "nodes2"]


def plan(rng):
    dn, rt = rng.choice([(5, 1), (1, 1), (2, 1), (10, 1), (3, 1), (5, 0.5), (1, 2), (4, 1.5), (5, 2), (2, .7), (1, .6), (3, .2), (1, .2), (5, .3)])
    dt = dn * rt
    n = rng.randint(30, 60)
    nn = rng.randint(3, 7)
    scale = rng.choice([1, 1, 1, 300])          # 300: coordinates of a country, metres
    N = []
    while len(N) < nn:
        p = (rng.randint(0, 30) * 100 * scale, rng.randint(0, 30) * 100 * scale)
        if p not in N:
            N.append(p)
    L = []
    perm = rng.sample(range(nn), nn)
    for a, b in zip(perm, perm[1:] + (perm[:1] if rng.random() < .6 else [])):
        L.append((a, b))
    for _ in range(rng.randint(0, nn)):
        a, b = rng.randrange(nn), rng.randrange(nn)
        if a != b and (a, b) not in L:
            L.append((a, b))
    out = [any(a == k for a, b in L) for k in range(nn)]
    inn = [any(b == k for a, b in L) for k in range(nn)]
    Q = []
    at = 0
    for _ in range(rng.randint(1, 4)):
        k = rng.choice(KINDS)
        if rng.random() < .3:
            at = min(n - 6, at + rng.randint(1, 8))
        ts = at * dt + rng.choice([0, 0, dt, 3 * dt, 2.5 * dt, rng.randint(0, 50) / 2])
        te = min(ts + rng.choice([dt, 4 * dt, 10 * dt, 20 * dt, rng.randint(4, 200) / 2]), ts + 250)
        g = 2 if rng.random() < .5 else 10
        ts = round(ts * g) / g
        if ts < at * dt:
            ts = round(at * dt, 1)
        te = round(max(te, ts + 1) * g) / g
        q = dict(k=k, at=at, ts=ts, te=te, flow=-1, vol=-1, how=rng.random(), attr=rng.random() < .6)
        if rng.random() < .5:
            q["vol"] = rng.choice([dn, 2 * dn, 7 * dn, 12.5, 40, rng.randint(1, 8000) / 100, 120])
            if k in ("area2", "nodes2") and rng.random() < .3:
                q["vol"] = 110 * dn + .5
        else:
            q["flow"] = rng.choice([.1, .25, .5, 1, 1 / dt, rng.randint(1, 1500) / 1000, 0])
            q["flow"] = round(q["flow"], 3)
        if rng.random() < .15 and q["vol"] > 0:
            q["flow"] = .777         # volume overrules
        q["form"] = rng.choice(["name", "object", "mixed"])
        ok = False
        for _ in range(60):
            if k == "one":
                q["os"], q["ds"] = [[x] for x in rng.sample(range(nn), 2)]
                ok = True
            elif k in ("nodes", "nodes2"):
                q["os"] = rng.sample(range(nn), rng.randint(1, min(nn, 3)))
                q["ds"] = rng.sample(range(nn), rng.randint(1, min(nn, 3)))
                a, b = {x for x in q["os"] if out[x]}, {x for x in q["ds"] if inn[x]}
                ok = bool(a and b) and (k == "nodes" or len(a | b) > 1)
            else:
                q["po"] = [rng.randint(0, 3000) * scale, rng.randint(0, 3000) * scale]
                q["pd"] = [rng.randint(0, 3000) * scale, rng.randint(0, 3000) * scale]
                q["ro"] = rng.choice([0, 1, 500, 1000, 1800, 3000]) * scale
                q["rd"] = rng.choice([0, 1, 500, 1000, 1800, 3000]) * scale
                d2 = lambda i, p: (N[i][0] - p[0]) ** 2 + (N[i][1] - p[1]) ** 2
                near = lambda p: [i for i in range(nn) if d2(i, p) == min(d2(j, p) for j in range(nn))]
                if k == "point":
                    ok = len(set(near(q["po"])) | set(near(q["pd"]))) > 1 and len(near(q["po"])) == len(near(q["pd"])) == 1
                else:
                    a = [i for i in range(nn) if d2(i, q["po"]) < q["ro"] ** 2 and out[i]] or near(q["po"])
                    b = [i for i in range(nn) if d2(i, q["pd"]) < q["rd"] ** 2 and inn[i]] or near(q["pd"])
                    ok = (k == "area" or len(set(a) | set(b)) > 1)
            if ok:
                break
        if ok:
            Q.append(q)
    return dict(dn=dn, rt=rt, n=n, N=N, L=L, Q=Q, out=out, inn=inn, det=rng.random() < .3)


def job(item):
    eng, seed, tid = item
    rng = random.Random("c14/" + tid)
    p = plan(rng)
    dt = p["dn"] * p["rt"]
    sc = 1 if max(max(x) for x in p["N"]) < 20000 else 300
    c = dict(id=tid, dn=p["dn"], dt=int(round(dt * 10)), n=p["n"], Q=[], extra=0,
             N=[dict(x=x // sc, y=y // sc, out=o, inn=i) for (x, y), o, i in zip(p["N"], p["out"], p["inn"])])
    try:
        ux = uxenv.load(cpp=eng == "cpp")
        kw = dict(cpp=True) if eng == "cpp" else {}
        W = ux.World("c14", deltan=p["dn"], reaction_time=p["rt"], tmax=(p["n"] + .5) * dt, random_seed=seed, print_mode=0, save_mode=0,
                     show_mode=0, show_progress=0, hard_deterministic_mode=p["det"], **kw)
        nm = ["n%d" % k for k in range(len(p["N"]))]
        for k, (x, y) in enumerate(p["N"]):
            W.addNode(nm[k], x, y)
        for a, b in p["L"]:
            W.addLink(nm[a] + nm[b], nm[a], nm[b], 800, number_of_lanes=2)
        for qi, q in enumerate(p["Q"]):
            if q["at"] > (int(W.T) if W.finalized else 0):
                W.exec_simulation(duration_t2=(q["at"] - (int(W.T) if W.finalized else 0)) * dt)
            spell = lambda k: nm[k] if q["form"] == "name" or (q["form"] == "mixed" and k % 2) else W.get_node(nm[k])
            kv = {}
            if q["flow"] != -1:
                kv["flow"] = q["flow"]
            if q["vol"] != -1:
                kv["volume"] = q["vol"]
            att = ("tag", qi) if q["attr"] else None
            if q["attr"]:
                kv["attribute"] = att
            before = list(W.VEHICLES.values())
            t0, t1 = q["ts"], q["te"]
            if q["k"] == "one":
                W.adddemand(spell(q["os"][0]), spell(q["ds"][0]), t0, t1, **kv)
            elif q["k"] == "point":
                W.adddemand_point2point(*q["po"], *q["pd"], t0, t1, **kv)
            elif q["k"] in ("area", "area2"):
                f = W.adddemand_area2area if q["k"] == "area" else W.adddemand_area2area2
                f(*q["po"], q["ro"], *q["pd"], q["rd"], t0, t1, **kv)
            else:
                f = W.adddemand_nodes2nodes if q["k"] == "nodes" else W.adddemand_nodes2nodes2
                f([spell(k) for k in q["os"]], [spell(k) for k in q["ds"]], t0, t1, **kv)
            q["made"] = [v for v in W.VEHICLES.values() if v not in set(before)]
            q["att"] = att
        W.exec_simulation()
        mine = set()
        for q in p["Q"]:
            made = []
            for v in q["made"]:
                mine.add(id(v))
                first = next((int(round(float(t) / dt)) for t, s in zip(v.log_t, v.log_state) if s != "home"), 0) - 1     # logged before it starts waiting
                made.append([nm.index(v.orig.name) + 1, nm.index(v.dest.name) + 1, int(v.departure_time), first, int(v.attribute == q["att"])])
            one = lambda a: [k + 1 for k in a]
            e = dict(k=q["k"], ts=int(round(q["ts"] * 10)), te=int(round(q["te"] * 10)), flow=int(round(q["flow"] * 1000)),
                     vol=int(round(q["vol"] * 100)) if q["vol"] > 0 else -1, made=made, os=one(q.get("os", [])), ds=one(q.get("ds", [])))
            if "po" in q:       # large coordinates are compared after scaling; the plan keeps them on a grid
                e.update(po=[z / sc for z in q["po"]], pd=[z / sc for z in q["pd"]], ro=q["ro"] // sc, rd=q["rd"] // sc)
                e["po"], e["pd"] = [[int(round(z)) for z in e[k]] for k in ("po", "pd")]
            c["Q"].append(e)
        c["extra"] = len([v for v in W.VEHICLES.values() if id(v) not in mine])
    except uxenv.MachineryError:
        raise
    except Exception as e:
        import traceback
        return None, "%s: %s %s" % (type(e).__name__, str(e)[:300], traceback.format_exc()[-500:])
    return c, ""


def run(ctx):
    for eng, cnt in (("py", 220), ("cpp", 180)):
        uxenv.load(cpp=eng == "cpp")
        items = []
        for k in range(ctx.n(cnt * 4, cnt * 14)):
            seed = ctx.seed * 100003 + k
            items.append((eng, seed, "%s/%d" % (eng, seed)))
        cases = []
        for it, r in zip(items, pool.run(job, items, per_item=120, total=1500)):
            if isinstance(r, pool.Died):
                ctx.viol("crash", it[2], r.why)
            elif r[1]:
                ctx.viol("crash", it[2], r[1])
            else:
                cases.append(r[0])
                ctx.note("demand_calls", len(r[0]["Q"]))
                ctx.note("vehicles", sum(len(q["made"]) for q in r[0]["Q"]))
        for cid, cl in judge.judge(ctx, "UXDemand", cases, batch=100):
            ctx.viol(cl, cid, "", dict(case=cid))
        if cases:
            ctx.sample(dict(case=cases[0]["id"], calls=[{k: v for k, v in q.items() if k != "made"} for q in cases[0]["Q"]][:2]))
