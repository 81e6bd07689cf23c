"""Runs split into arbitrary sequences of calls are the same run."""
import json, random
import uxenv, scen, rec, hist, pool, tlc
from scen import dt_of

KINDS = ["until", "dur", "dur2", "all"]


def call(Wd, sc, k, a, frac):
    """one exec_simulation call asking for a whole number a of steps (plus a fraction of one)"""
    dt = dt_of(sc)
    arg = round((a + frac) * dt, 6)
    kw = {"until": dict(until_t=arg), "dur": dict(duration_t=arg), "dur2": dict(duration_t2=arg), "all": {}}[k]
    t0 = int(Wd.T) if Wd.finalized else 0
    ret, raised = -1, False
    try:
        ret = int(bool(Wd.exec_simulation(**kw)))
    except Exception as e:
        if "not positive" not in str(e):
            raise
        raised = True
    t1 = int(Wd.T)
    tm = float(Wd.TIME) / dt * 1000
    on = [[m, bool(Wd.on_time(round(m * dt / 1000, 6)))] for m in sorted({1000 * t + f for t in (t1 - 1, t1, t1 + 1, t0, a) if t >= 0 for f in (0, 500)})]
    return dict(k=k, a=a, t0=t0, t1=t1, ret=ret, raised=raised, ongoing=bool(Wd.check_simulation_ongoing()), time=int(round(tm)), on=on)


def look(Wd, sc, vobj, rng):
    """things a user may read between two calls"""
    r = rng.random()
    vs = list(vobj.values())
    if r < 0.35:
        for v in vs:
            v.log_t, v.log_state, v.log_x, v.log_link
            v.traveled_route()
    elif r < 0.55:
        v = rng.choice(vs)
        len(v.log_v), v.state, v.travel_time, v.link, v.distance_traveled
    elif r < 0.75:
        for l in Wd.LINKS:
            l.speed, l.density, l.flow, l.num_vehicles, l.cum_arrival, l.traveltime_instant, l.traveltime_actual
            l.arrival_count(rng.randint(0, 300)), l.actual_travel_time(rng.randint(0, 300)), l.instant_travel_time(0)
    elif r < 0.9:
        Wd.analyzer.basic_analysis()
        Wd.analyzer.od_to_pandas(), Wd.analyzer.vehicles_to_pandas(), Wd.analyzer.link_to_pandas()
    else:
        Wd.ROUTECHOICE.dist, Wd.check_simulation_ongoing(), Wd.get_nearest_node(0, 0)


def plan(rng, n):
    """requests that end with the horizon reached"""
    out, T = [], 0
    style = rng.choice(["ones", "small", "mix", "mix", "wild"])
    while T < n and len(out) < 200:
        if style == "ones":
            q = ("dur2", 1)
        elif style == "small":
            q = rng.choice([("dur2", rng.randint(1, 3)), ("dur", rng.randint(0, 2)), ("until", T + rng.randint(0, 3))])
        else:
            k = rng.choice(KINDS[:3])
            hi = 12 if style == "mix" else n
            a = rng.randint(0 if k == "dur" else 1, hi) if k != "until" else T + rng.randint(0, hi)
            q = (k, a)
            if style == "wild" and rng.random() < 0.4:
                q = rng.choice([("dur2", 0), ("dur2", -rng.randint(1, 4)), ("dur", -rng.randint(1, 4)), ("until", T - rng.randint(1, T + 1)),
                                ("until", n + rng.randint(0, 5)), ("dur", n)][:4 if rng.random() < 0.8 else 6])
        out.append(q)
        k, a = q
        e = {"until": a, "dur": T + a, "dur2": T + a - 1}[k]
        e = min(n, e)
        if e >= T:
            T = min(n, e + 1)
        if rng.random() < 0.03 and T < n:
            out.append(("all", 0))
            T = n
    for q in [("dur2", 3), ("all", 0), ("until", n - 2), ("dur", -1)]:
        if rng.random() < 0.4:
            out.append(q)
    return out


def job(item):
    eng, seed, kw, tid, nrun = item
    rng = random.Random("c11/%s" % tid)
    sc = scen.generate(seed, engine=eng, **kw)
    n = sc["W"]["steps"]
    evs = sorted({e["at"] for e in sc["E"]})
    case = dict(id=tid, n=n, dt=1000, tol={"none": 0}, ref=[], runs=[])
    name = "ref"
    try:
        Wd, vobj = rec.build(sc, eng)
        for t in evs:
            if t > 0:
                Wd.exec_simulation(duration_t2=(t - (Wd.T if Wd.finalized else 0) + 0.25) * dt_of(sc))
            for e in sc["E"]:
                if e["at"] == t:
                    rec.apply_event(Wd, sc, e, vobj, eng)
        Wd.exec_simulation()
        case["ref"] = hist.history(Wd, sc, vobj, eng, n) + [hist.results(Wd)]
        for r in range(nrun):
            name = "run%d" % r
            Wd, vobj = rec.build(sc, eng)
            calls = []
            todo = list(evs)
            for k, a in plan(rng, n):
                frac = rng.choice([0, 0.5])
                if a < 0:
                    frac = 0
                T = int(Wd.T) if Wd.finalized else 0
                if todo:
                    e = {"until": a, "dur": T + a, "dur2": T + a - 1, "all": n}[k]
                    if e >= todo[0]:
                        # stop at the next intervention
                        if todo[0] == T:
                            pass
                        else:
                            calls.append(call(Wd, sc, "dur2", todo[0] - T, 0.5))
                            T = int(Wd.T)
                        for e in sc["E"]:
                            if e["at"] == todo[0]:
                                rec.apply_event(Wd, sc, e, vobj, eng)
                        todo.pop(0)
                        continue
                calls.append(call(Wd, sc, k, a, frac))
                if rng.random() < 0.15 and Wd.T > 0:
                    look(Wd, sc, vobj, rng)
            while todo:
                T = int(Wd.T) if Wd.finalized else 0
                if todo[0] > T:
                    calls.append(call(Wd, sc, "dur2", todo[0] - T, 0.5))
                for e in sc["E"]:
                    if e["at"] == todo[0]:
                        rec.apply_event(Wd, sc, e, vobj, eng)
                todo.pop(0)
            calls.append(call(Wd, sc, "all", 0, 0))
            case["runs"].append(dict(name=name, calls=calls, hist=hist.history(Wd, sc, vobj, eng, n) + [hist.results(Wd)]))
    except uxenv.MachineryError:
        raise
    except Exception as e:
        return case, "%s: %s: %s" % (name, type(e).__name__, str(e)[:300])
    return case, ""


FAMS = [("py", 44, {}), ("cpp", 60, {}), ("py", 12, dict(exact=False)), ("cpp", 16, dict(exact=False)),
        ("py", 10, dict(events=True)), ("cpp", 14, dict(events=True))]


def run(ctx):
    ctx.add_tlc(tlc.run("UXClockModel"))
    items = []
    for fi, (eng, cnt, kw) in enumerate(FAMS):
        for k in range(ctx.n(cnt * 3, cnt * 14)):
            seed = (ctx.seed * 31 + fi) * 10007 + k
            items.append((eng, seed, kw, "%s/%d/%s" % (eng, seed, json.dumps(kw)), 2))
    for eng in ("py", "cpp"):
        uxenv.load(cpp=eng == "cpp")
        its = [i for i in items if i[0] == eng]
        cases = []
        for it, r in zip(its, pool.run(job, its, per_item=120, total=1500)):
            if isinstance(r, pool.Died):
                ctx.viol("crash", it[3], r.why)
                continue
            c, err = r
            if err:
                ctx.viol("crash", it[3], err)
            else:
                cases.append(c)
                ctx.note("split_runs", len(c["runs"]))
                ctx.note("calls", sum(len(x["calls"]) for x in c["runs"]))
        for cid, cl, rn, st in hist.judge(ctx, cases):
            ctx.viol(cl, cid, "%s at %s" % (rn, st), dict(case=cid))
        if cases:
            ctx.sample(dict(case=cases[0]["id"], calls=[[c["k"], c["a"]] for c in cases[0]["runs"][0]["calls"]][:20]))
