"""Taxi dispatch: recorded operations of the handlers against the taxi machine."""
import json, random
import uxenv, tlc, pool, judge


def job(item):
    seed, tid = item
    rng = random.Random("c17/" + tid)
    dn, rt = rng.choice([(5, 1), (1, 1), (2, 1), (5, .5), (1, 2.5), (10, 1)])
    dt = dn * rt
    n = rng.randint(2, 6)
    steps = rng.randint(60, 160)
    pol = rng.choice(["random", "nearest", "nearest", "radius"])
    rad = rng.choice([0, 100, 300, 700, 1500])
    every = rng.choice([1, 1, 3, 8, 20])
    inside = rng.random() < .35
    direct = rng.random() < .2           # destinations given by hand as well
    E = []
    c = dict(id=tid, N=n, dt=int(dt * 10), dn=dn, E=E, direct=int(direct))
    try:
        ux = uxenv.load(cpp=False)
        from uxsim import TaxiHandler as TH
        TH = getattr(TH, "TaxiHandler", TH) if not hasattr(TH, "TaxiHandler_nearest") else TH
        W = ux.World("c17", deltan=dn, reaction_time=rt, tmax=steps * dt, random_seed=seed, print_mode=0, save_mode=0, show_mode=0, show_progress=0,
                     duo_update_time=rng.choice([600, 10 * dt, 3 * dt]), hard_deterministic_mode=rng.random() < .3,
                     route_choice_update_gradual=rng.random() < .2)
        xy = [(rng.randint(0, 1500), rng.randint(0, 1500)) for _ in range(n)]
        nodes = [W.addNode("n%d" % k, *xy[k]) for k in range(n)]
        c["XY"] = [[x * 10, y * 10] for x, y in xy]
        perm = rng.sample(range(n), n)
        arcs = list(zip(perm, perm[1:] + perm[:1]))
        for _ in range(rng.randint(0, n + 2)):
            a, b = rng.sample(range(n), 2)
            if (a, b) not in arcs:
                arcs.append((a, b))
        for a, b in arcs:
            u = rng.choice([10, 20])
            W.addLink("l%d-%d" % (a, b), nodes[a], nodes[b], max(u * dt, rng.randint(4, 40) * 20), u, number_of_lanes=rng.choice([1, 1, 2]))
        sp = lambda k: nodes[k] if rng.random() < .5 else nodes[k].name
        no = lambda x: 0 if x is None else nodes.index(x) + 1
        taxis = []
        for k in range(rng.randint(1, 5)):
            d = rng.randrange(n) if rng.random() < .2 else None
            taxis.append(W.addVehicle(sp(rng.randrange(n)), None if d is None else sp(d), rng.choice([0, 0, 0, rng.randint(0, 30)]) * dt, mode="taxi", name="taxi%d" % k))
            E.append(dict(k="taxi", d=0 if d is None else d + 1))
        if rng.random() < .4:
            a, b = rng.sample(range(n), 2)
            W.adddemand(nodes[a], nodes[b], 0, steps * dt / 2, rng.choice([.1, .4]))
        H = {"random": lambda: TH.TaxiHandler_random(W), "nearest": lambda: TH.TaxiHandler_nearest(W),
             "radius": lambda: TH.TaxiHandler_nearest_matching_radious(W, rad)}[pol]()
        reqs, names = [], []

        def request():
            o = rng.randrange(n)
            d = rng.randrange(n) if rng.random() < .1 else rng.choice([k for k in range(n) if k != o])
            dep = rng.choice([0, rng.randint(0, steps) * dt * .7, rng.randint(0, int(steps * dt * 5)) / 10])
            dep = round(dep * 10) / 10
            name = rng.choice([None, None, None, "r%d" % len(reqs)])
            H.add_trip_request(sp(o), sp(d), dep, name, attribute=len(reqs)) if name is not None or rng.random() < .3 else H.add_trip_request(sp(o), sp(d), dep, attribute=len(reqs))
            reqs.append(H.trip_requests_all[-1])
            E.append(dict(k="req", o=o + 1, d=d + 1, dep=int(round(dep * 10))))

        t10 = lambda z: -1 if z is None else int(round(z * 10))
        tno = lambda v: 0 if v is None else taxis.index(v) + 1

        def stage(r):
            if r in H.trip_requests:
                return 0 if r.taxi is None and r.get_taxi_time is None else -1
            if r.taxi is None:
                return -2
            return 1 if r.get_taxi_time is None else 2 if r.arrival_time is None else 3

        last = {}
        prefs = []

        def observe(T):
            at, V = [], []
            for v in taxis:
                on = v.state == "run" and v.link is not None and v.x == v.link.length
                at.append(no(v.link.end_node) if on else 0)
                ok = v.state == "run" or (v.state in ("home", "wait") and v not in started)
                if v.state == "run":
                    started.add(v)
                V.append([no(v.dest), [no(x) for x in v.dest_list], int(ok)])
            cr = []
            for v in taxis:
                old, now = last.get(v, (None, None)), (v.link, v.dest)
                if old[0] is not None and v.link is not None and v.link is not old[0] and old[1] is not None:
                    outs = list(old[0].end_node.outlinks.values())
                    cr.append([[int(round(p[old[1].id][v.link.id] * 1e6)), int(round(max(p[old[1].id][l.id] for l in outs) * 1e6))] for p in prefs[-2:]])
                last[v] = now
            prefs.append(W.ROUTECHOICE.route_pref.copy())
            E.append(dict(k="step", T=T, at=at, R=[[stage(r), tno(r.taxi), t10(r.get_taxi_time), t10(r.arrival_time)] for r in reqs], V=V, cr=cr))

        started = set()

        def match():
            now = t10(W.TIME)
            P = []
            for v in taxis:
                if v.state == "run":
                    a, b, z = v.link.start_node, v.link.end_node, v.x / v.link.length
                    P.append([int(round((a.x + (b.x - a.x) * z) * 10)), int(round((a.y + (b.y - a.y) * z) * 10))])
                else:
                    P.append([0, 0])
            run_ = [int(v.state == "run") for v in taxis]
            was = [r.taxi for r in reqs]
            H.assign_trip_request_to_taxi()
            pairs = [[k + 1, tno(r.taxi)] for k, r in enumerate(reqs) if r.taxi is not was[k]]
            E.append(dict(k="match", now=now, pol=pol, rad=rad * 10, P=P, run=run_, pairs=pairs,
                          R=[[stage(r), tno(r.taxi)] for r in reqs], V=[[no(v.dest), [no(x) for x in v.dest_list]] for v in taxis]))

        def between(T):
            if rng.random() < .05:
                request()
            if direct and rng.random() < .08:
                v = rng.randrange(len(taxis))
                d = rng.randrange(n)
                order = rng.choice([-1, -1, 0, 1])
                if order == -1:
                    rng.choice([taxis[v].add_dest, lambda x: taxis[v].add_dests([x])])(sp(d))
                else:
                    taxis[v].add_dest(sp(d), order=order)
                E.append(dict(k="dest", v=v + 1, d=d + 1, order=order))
            if T % every == 0:
                match()

        for _ in range(rng.randint(1, 8)):
            request()
        if inside:
            def uf(Wd):
                observe(int(Wd.T))
                between(int(Wd.T))
            W.user_function = uf
            W.exec_simulation()
        else:
            for T in range(steps):
                W.exec_simulation(duration_t2=dt)
                observe(T)
                if T < steps - 1:
                    between(T)
        df, b = H.trips_to_pandas(), H.basic_to_pandas()
        none = lambda z: -1 if z is None or z != z else t10(z)
        tn = {v.name: k + 1 for k, v in enumerate(taxis)}
        nn = {x.name: k + 1 for k, x in enumerate(nodes)}
        names = [r.name for r in reqs]
        c["fin"] = dict(rows=[[nn[r.orig], nn[r.dest], t10(r.depart_time), none(r.get_taxi_time), none(r.arrival_time), none(r.travel_time),
                               none(r.waiting_time), tn.get(r.used_taxi, 0)] for r in df.itertuples()],
                        total=int(b["total_trips"][0]), completed=int(b["completed_trips"][0]), wait=t10(b["average_waiting_time"][0]),
                        inveh=t10(b["average_invehicle_time"][0]), travel=t10(b["average_travel_time"][0]),
                        named=int(len(set(names)) == len(names) and all(H.get_trip(r.name) is r and H.get_trip(r) is r and r.attribute == k for k, r in enumerate(reqs))))
    except uxenv.MachineryError:
        raise
    except Exception as e:
        import traceback
        return None, "%s: %s %s" % (type(e).__name__, str(e)[:300], traceback.format_exc()[-600:])
    return c, ""


def run(ctx):
    r = tlc.run("UXTaxiModel", cfg="UXTaxiModel3" if ctx.tier == "thorough" else "UXTaxiModel")
    ctx.add_tlc(r)
    ctx.note("model_states", r.distinct)
    uxenv.load(cpp=False)
    items = [(ctx.seed * 100003 + k, "py/%d" % (ctx.seed * 100003 + k)) for k in range(ctx.n(400, 3000))]
    cases = []
    for it, r in zip(items, pool.run(job, items, per_item=120, total=1500)):
        if isinstance(r, pool.Died):
            ctx.viol("crash", it[1], r.why)
        elif r[1]:
            ctx.viol("crash", it[1], r[1])
        else:
            cases.append(r[0])
            R = [e for e in r[0]["E"] if e["k"] == "step"][-1]["R"]
            ctx.note("requests", len(R))
            ctx.note("served", sum(1 for x in R if x[0] == 3))
            ctx.note("matchings", sum(1 for e in r[0]["E"] if e["k"] == "match"))
            ctx.note("time_steps", sum(1 for e in r[0]["E"] if e["k"] == "step"))
    for cid, cl in judge.judge(ctx, "UXTaxiTrace", cases, batch=60):
        ctx.viol(cl, cid, "", dict(case=cid))
    if cases:
        ctx.sample(dict(case=cases[0]["id"], events=len(cases[0]["E"]), requests=R))
