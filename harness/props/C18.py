"""Assignment solvers: every day of real solver runs against the day-to-day machine of spec/UXDTA.tla."""
import random, warnings
import uxenv, tlc, pool, judge

SC = 10


def sc(z):
    return int(round(float(z) * SC))


def plan(rng):
    dn, rt = rng.choice([(5, 1), (2, 1), (5, 1.5), (10, 1), (4, .5)])
    dt = dn * rt
    P = dict(dn=dn, rt=rt, dt=dt)
    # parallel corridors between one or two origins and one or two destinations
    nodes, L = ["O", "D"], []
    nc = rng.choice([2, 2, 3, 4])
    lane = lambda: rng.choice([1, 1, 1, 2])
    cap = lambda: rng.choice([None, .3, .3, .5])
    toll = lambda: rng.choice([None, None, None, ("c", rng.choice([20, 60, 200])), ("s", rng.choice([20, 100]), rng.randint(5, 40), rng.choice([0, 40]))])

    def add(a, b, length=None):
        L.append(dict(n="%s%s%d" % (a, b, len(L)), s=a, e=b, len=length or rng.choice([500, 500, 1000, 1500]), u=rng.choice([10, 20, 20, 25]), ln=lane(), co=cap(), toll=toll()))
    for k in range(nc):
        if rng.random() < .25:
            add("O", "D", rng.choice([1000, 1500]))
        else:
            m = "m%d" % k
            nodes.append(m)
            add("O", m)
            add(m, "D")
    mids = [x for x in nodes if x[0] == "m"]
    for _ in range(rng.choice([0, 1, 2])):
        if len(mids) >= 2:
            a, b = rng.sample(mids, 2)
            add(a, b, 500)
    dem = [("O", "D")]
    if rng.random() < .5:
        nodes.append("P")
        for m in rng.sample(mids + ["O"], min(2, len(mids) + 1)):
            add("P", m)
        dem.append(("P", "D"))
    if rng.random() < .3:
        nodes.append("E")
        add("D", "E", 500)
        dem.append(("O", "E"))
    rng.shuffle(L)
    P["nodes"], P["L"] = nodes, L
    P["dem"] = [(o, d, rng.choice([0, 0, 30]), rng.choice([60, 100, 200]), rng.choice([.4, .8, 1.2])) for o, d in dem]
    long_ = rng.random() < .8
    P["tmax"] = (int((1500 if long_ else rng.choice([150, 250])) / dt) + .5) * dt
    P["hard"] = rng.random() < .2
    P["noise"] = rng.choice([0, .01])
    P["log"] = rng.choice([1, 1, 1, -1])
    P["fin"] = rng.random() < .2
    P["seed"] = rng.randint(0, 999)
    return P


def tollfun(t, dt):
    if t[0] == "c":
        return lambda x, v=t[1]: v
    return lambda x, a=t[1], k=t[2], b=t[3]: (b if x < k * dt else a)


def world(ux, P, eng):
    kw = dict(cpp=True) if eng == "cpp" else {}
    W = ux.World("c18", deltan=P["dn"], reaction_time=P["rt"], tmax=P["tmax"], random_seed=P["seed"], print_mode=0, save_mode=0, show_mode=0,
                 show_progress=0, duo_noise=P["noise"], hard_deterministic_mode=P["hard"], vehicle_logging_timestep_interval=P["log"], **kw)
    for n in P["nodes"]:
        W.addNode(n, 0, 0)
    for l in P["L"]:
        W.addLink(l["n"], l["s"], l["e"], l["len"], l["u"], number_of_lanes=l["ln"], capacity_out=l["co"],
                  congestion_pricing=tollfun(l["toll"], P["dt"]) if l["toll"] else None)
    for o, d, a, b, q in P["dem"]:
        W.adddemand(o, d, a, a + b, q)
    if P["fin"]:
        W.finalize_scenario()
    return W


def specified(v, eng):
    r = v._cpp_vehicle.specified_route if eng == "cpp" else v.specified_route
    return [l.name for l in r] if r is not None else []


def routes_of(W, P, rng):
    """admissible route sets, by hand: every simple route, some of them"""
    out = {}
    L = P["L"]

    def ext(path, at, d, seen):
        if at == d:
            yield list(path)
            return
        for l in L:
            if l["s"] == at and l["e"] not in seen:
                yield from ext(path + [l["n"]], l["e"], d, seen | {l["e"]})
    for o, d, *_ in P["dem"]:
        rs = list(ext([], o, d, {o}))
        rng.shuffle(rs)
        out[o, d] = rs[:rng.choice([1, 2, 3, 5])]
    return out


def job(item):
    eng, mode, tid = item
    rng = random.Random("c18/" + tid)
    P = plan(rng)
    nm = {l["n"]: k + 1 for k, l in enumerate(P["L"])}
    nid = {n: k + 1 for k, n in enumerate(P["nodes"])}
    ids = lambda r: [nm[x if isinstance(x, str) else x.name] for x in r]
    iters = rng.choice([1, 2, 3, 4, 4])
    prob = rng.choice([0, 20, 50, 100, 100])
    ext = rng.random() < .4
    num = rng.choice([1, 3, 5]) if mode == "dso" and rng.random() < .4 else -1
    # a broken solver may bother only some parts: the rest must still be told apart from a crash
    try:
        import io, contextlib
        ux = uxenv.load(cpp=eng == "cpp")
        from uxsim.DTAsolvers import DTAsolvers as D
        warnings.simplefilter("ignore")
        Ws = []

        def func():
            W = world(ux, P, eng)
            Ws.append(W)
            return W
        random.seed(rng.randint(0, 10**6))
        S = (D.SolverDUE if mode == "due" else D.SolverDSO_D2D)(func, cpp=True) if eng == "cpp" else (D.SolverDUE if mode == "due" else D.SolverDSO_D2D)(func)
        kw = dict(n_routes_per_od=rng.choice([1, 3, 6]), swap_prob=prob / 100)
        if num >= 0:
            kw["swap_num"] = num
        G = None
        if ext:
            G = routes_of(None, P, rng)
            kw["route_sets"] = {((Ws or [world(ux, P, eng)])[0].get_node(o) if rng.random() < .3 else o, d): r for (o, d), r in G.items()}
        with contextlib.redirect_stdout(io.StringIO()):
            sol = S.solve(iters, print_progress=rng.random() < .3, **kw)
        runs = Ws[1:]
        if len(runs) != iters:
            return None, "%d days simulated instead of %d" % (len(runs), iters)
        R = runs[-1].dict_od_to_routes
        Rl = [dict(o=nid[o], d=nid[d], routes=[ids(r) for r in rs]) for (o, d), rs in R.items() if (o, d) in {(x[0], x[1]) for x in P["dem"]}]
        c = dict(id=tid, mode=mode, dt=sc(P["dt"]), dn=P["dn"], sc=SC, ext=int(ext), prob=prob, num=num, I=[],
                 L=[dict(s=nid[l["s"]], e=nid[l["e"]]) for l in P["L"]], F=[sc(l["len"] / l["u"]) for l in P["L"]], R=Rl,
                 G=[dict(o=nid[o], d=nid[d], routes=[ids(r) for r in rs]) for (o, d), rs in G.items()] if ext else [])
        pos = lambda W: next((k + 1 for k, x in enumerate(runs) if x is W), 0)
        c["sol"], c["mid"] = pos(sol), pos(S.W_intermid_solution)
        if S.W_sol is not sol:
            return None, "W_sol is not what solve returned"
        a = sol.analyzer if sol is not None else None
        c["all"], c["comp"], c["ttt"] = (int(a.trip_all), int(a.trip_completed), sc(a.total_travel_time)) if a else (0, 0, 0)
        redo = rng.randint(1, iters)
        rep = rng.random() < .6
        for k, W in enumerate(runs):
            links = [W.get_link(l["n"]) for l in P["L"]]
            n = int(W.TSIZE)
            dfl = S.dfs_link[k]
            row = {x: y for y, x in enumerate(dfl["link"])}
            I = dict(TT=[[sc(z) for z in l.traveltime_actual] for l in links],
                     TO=[[sc(tollfun(l["toll"], P["dt"])(t * P["dt"])) if l["toll"] else 0 for t in range(n)] for l in P["L"]] if mode == "due" else [],
                     A=[[int(z) for z in l.cum_arrival] for l in links] if mode == "dso" else [],
                     D=[[int(z) for z in l.cum_departure] for l in links] if mode == "dso" else [],
                     AE=[int(l.cum_arrival[-1]) for l in links], DE=[int(l.cum_departure[-1]) for l in links],
                     vol=[int(dfl["traffic_volume"][row[l.name]]) for l in links], rem=[int(dfl["vehicles_remain"][row[l.name]]) for l in links],
                     nsw=int(S.n_swaps[k]), pot=int(S.potential_swaps[k]), gap=sc(S.t_gaps[k] * len(W.VEHICLES)), ttt=sc(S.ttts[k]), V=[], V2=[])
            for key, v in W.VEHICLES.items():
                if P["log"] == -1 and eng == "cpp":    # no vehicle record in the world itself: what the solver reports
                    r = S.route_log[k][key]
                    q, last, ts = v._cpp_vehicle, -1, []
                    for t, l in zip(list(q.log_t), list(q.log_link)):
                        if l >= 0 and l != last:
                            ts.append(t)
                            last = l
                    if ts:
                        ts.append(q.arrival_time if v.state == "end" else -1)
                else:
                    r, ts = v.traveled_route()
                I["V"].append(dict(nots=int(not ts), o=nid[v.orig.name], d=nid[v.dest.name], fin=int(v.state == "end"), r=ids(r), ts=[sc(t) for t in ts],
                                   spec=ids(specified(v, eng)), logr=ids(S.route_log[k][key]), logc=sc(S.cost_log[k][key]), tt=sc(v.travel_time)))
            c["I"].append(I)
            if rep and k + 1 == redo:
                W2 = world(ux, P, eng)
                for key, v in W2.VEHICLES.items():
                    s = specified(W.VEHICLES[key], eng)
                    if s:
                        v.enforce_route([W2.get_link(x) for x in s] if rng.random() < .5 else s if eng == "cpp" else W2.defRoute(s))
                W2.exec_simulation()
                if not (P["log"] == -1 and eng == "cpp"):
                    for key, v in W2.VEHICLES.items():
                        r, ts = v.traveled_route()
                        I["V2"].append(dict(r=ids(r), ts=[sc(t) for t in ts]))
        return c, ""
    except uxenv.MachineryError:
        raise
    except Exception as e:
        import traceback
        return None, "%s: %s %s" % (type(e).__name__, str(e)[:300], traceback.format_exc()[-600:])


def search(item):
    """GA and ALNS: all candidates simulated, and the one returned"""
    eng, mode, tid = item
    rng = random.Random("c18s/" + tid)
    P = plan(rng)
    P["tmax"] = (int(rng.choice([150, 250, 400, 1000]) / P["dt"]) + .5) * P["dt"]
    P["dem"] = [(o, d, a, b / 2, q) for o, d, a, b, q in P["dem"]]
    P["log"] = 1 if eng == "cpp" else P["log"]
    nm = {l["n"]: k + 1 for k, l in enumerate(P["L"])}
    nid = {n: k + 1 for k, n in enumerate(P["nodes"])}
    ids = lambda r: [nm[x if isinstance(x, str) else x.name] for x in r]
    try:
        import io, contextlib
        import numpy as np
        ux = uxenv.load(cpp=eng == "cpp")
        from uxsim.DTAsolvers import DTAsolvers as D
        warnings.simplefilter("ignore")
        Ws = []
        while len(world(ux, P, eng).VEHICLES) < 5:
            P["dem"] = [(o, d, a, b * 2, q) for o, d, a, b, q in P["dem"]]

        def func():
            W = world(ux, P, eng)
            Ws.append(W)
            return W
        random.seed(rng.randint(0, 10**6))
        np.random.seed(rng.randint(0, 10**6))
        kw = dict(n_routes_per_od=rng.choice([1, 2, 5]), print_progress=False)
        start = None
        if rng.random() < .4:
            start = world(ux, P, eng)
            start.exec_simulation()
            U = __import__("uxsim.Utilities", fromlist=["x"])
            start.dict_od_to_routes = U.enumerate_k_random_routes(start, 3)
            kw["initial_solution_World"] = start
        off = 0 if start else 1
        pop, gens, elite = 0, 0, 0
        with contextlib.redirect_stdout(io.StringIO()):
            if mode == "ga":
                S = D.SolverDSO_GA(func)
                pop, gens, elite = rng.choice([4, 6]), rng.choice([1, 2, 3]), rng.choice([1, 2])
                sol = S.solve(gens, pop_size=pop, elite_size=elite, n_crossover_points=rng.choice([1, 2]), mutation_occur_rate=.5, mutation_gene_rate=.2, **kw)
            else:
                S = D.SolverDSO_ALNS(func)
                sol = S.solve(rng.choice([4, 8, 12]), trials=rng.choice([2, 5]), k_max=rng.choice([None, 1, 4]), k_min=rng.choice([None, 1]), always_accept=rng.random() < .3, **kw)
        first = start if start else Ws[0]
        runs = Ws[off:]
        R = first.dict_od_to_routes if hasattr(first, "dict_od_to_routes") else sol.dict_od_to_routes

        def vehs(W):
            out = []
            for v in W.VEHICLES.values():
                route, ts = v.traveled_route()
                out.append(dict(o=nid[v.orig.name], d=nid[v.dest.name], fin=int(v.state == "end"), r=ids(route), tt=sc(v.travel_time),
                                tc=sc(ts[-1] - ts[0]) if len(ts) and v.state == "end" else 0))
            return out
        pos = lambda W: next((k + 1 for k, x in enumerate(runs) if x is W), 0)
        c = dict(id=tid, mode=mode, dn=P["dn"], sc=SC, tmax=sc(sol.TMAX), ext=0, pop=pop, gens=gens, elite=elite, sol=pos(sol), mid=pos(S.W_intermid_solution),
                 L=[dict(s=nid[l["s"]], e=nid[l["e"]]) for l in P["L"]], start=vehs(first),
                 logs=[[dict(r=ids(r.get(n, [])), c=sc(k.get(n, 0))) for n in first.VEHICLES] for r, k in zip(S.route_log, S.cost_log)],
                 ttbest=[sc(z) for z in getattr(S, "ttts_best", [])], obest=[sc(z) for z in getattr(S, "best_obj", [])], ibest=[int(z) for z in getattr(S, "best_iter", [])],
                 R=[dict(o=nid[o], d=nid[d], routes=[ids(r) for r in rs]) for (o, d), rs in R.items() if (o, d) in {(x[0], x[1]) for x in P["dem"]}],
                 E=[dict(V=vehs(W), ttt=sc(W.analyzer.total_travel_time)) for W in runs], ttts=[sc(z) for z in S.ttts])
        if mode == "ga" and len(runs) != pop * gens:
            return None, "%d candidates simulated instead of %d" % (len(runs), pop * gens)
        return c, ""
    except uxenv.MachineryError:
        raise
    except Exception as e:
        import traceback
        return None, "%s: %s %s" % (type(e).__name__, str(e)[:300], traceback.format_exc()[-600:])


def run(ctx):
    for cfg in ("UXDTAModel3" if ctx.tier == "thorough" else "UXDTAModel", "UXDTAGame"):
        r = tlc.run("UXDTAModel", cfg=cfg)
        ctx.add_tlc(r)
        ctx.note("model_states", r.distinct)
    for eng in ("py", "cpp"):
        uxenv.load(cpp=eng == "cpp")
        items = []
        for mode in ("due", "dso"):
            items += [(eng, mode, "%s/%s/%d" % (eng, mode, ctx.seed * 100003 + k)) for k in range(ctx.n(40, 500))]
        sitems = [(eng, mode, "%s/%s/%d" % (eng, mode, ctx.seed * 100003 + k)) for mode in ("ga", "alns") for k in range(ctx.n(12, 150) if eng == "py" else ctx.n(4, 50))]
        cases = []
        for it, r in list(zip(items, pool.run(job, items, per_item=180, total=1500))) + list(zip(sitems, pool.run(search, sitems, per_item=180, total=1500))):
            if isinstance(r, pool.Died):
                ctx.viol("crash", it[2], r.why)
            elif r[1]:
                ctx.viol("crash", it[2], r[1])
            else:
                cases.append(r[0])
                if "I" in r[0]:
                    ctx.note("days", len(r[0]["I"]))
                    ctx.note("swaps", sum(i["nsw"] for i in r[0]["I"]))
                else:
                    ctx.note("candidates", len(r[0]["E"]))
        for cid, cl in judge.judge(ctx, "UXDTATrace", cases, batch=20):
            ctx.viol(cl, cid, "", dict(case=cid))
        if cases:
            ctx.sample(dict(case=cases[0]["id"], days=len(cases[0]["I"]), route_sets=cases[0]["R"]))
