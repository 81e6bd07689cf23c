"""Route enumeration utilities, Route objects and shortest-distance queries."""
import json, random
import uxenv, tlc, pool, judge


def plan(rng):
    n = rng.randint(2, 6)
    L = []
    m = rng.randint(n - 1, min(11, 2 * n + 2))
    perm = rng.sample(range(n), n)
    for a, b in zip(perm, perm[1:]):
        if rng.random() < .85:
            L.append((a, b))
    while len(L) < m:
        a, b = rng.sample(range(n), 2)
        if (a, b) in L and rng.random() < .4:
            continue
        L.append((a, b))
    L = [(a, b, rng.choice([1, 1, 2, 2, 3, 4, 7]), rng.choice([5, 10, 20])) for a, b in L]
    rng.shuffle(L)
    return n, L


def ids(W, nm, route):
    return [nm.get(x if isinstance(x, str) else x.name, 0) for x in route]


def ms(z):
    import math
    z = float(z)
    if not math.isfinite(z):
        return -1
    return int(round(z * 1000))


def job(item):
    eng, seed, tid = item
    import networkx as nx
    rng = random.Random("c19/" + tid)
    n, L = plan(rng)
    dn, rt = rng.choice([(5, 1), (2, 1), (1, 1), (10, 1), (5, .5), (3, 1.5), (1, .6), (2, .7), (3, .2), (1, .2)])
    dt = dn * rt
    unit = max(10, 2 * dt)
    sim = rng.random() < .5
    steps = rng.randint(20, 60)
    duo = round(rng.choice([600, 10 * dt, 4.5 * dt, 7 * dt, 3 * dt, dt]), 6)
    Q = []
    c = dict(id=tid, N=n, L=[dict(s=a + 1, e=b + 1) for a, b, _, _ in L], Q=Q)
    try:
        ux = uxenv.load(cpp=eng == "cpp")
        from uxsim import Utilities as U
        random.seed(seed)
        kw = dict(cpp=True) if eng == "cpp" else {}
        W = ux.World("c19", deltan=dn, reaction_time=rt, tmax=round(steps * dt, 6), random_seed=seed, print_mode=0, save_mode=0, show_mode=0,
                     show_progress=0, duo_update_time=duo, duo_noise=0, hard_deterministic_mode=rng.random() < .5, **kw)
        nn = ["n%d" % k for k in range(n)]
        for k in nn:
            W.addNode(k, rng.randint(0, 9), rng.randint(0, 9))
        nm = {}
        for k, (a, b, cost, u) in enumerate(L):
            name = rng.choice(["l%d", "L%d", "%d"]) % (k + 1)
            W.addLink(name, nn[a], nn[b], cost * unit * u, u, number_of_lanes=rng.choice([1, 2]), capacity_out=rng.choice([None, None, .3]))
            nm[name] = k + 1
        links = list(W.LINKS)
        ff = [ms(l.length / l.free_flow_speed) for l in links]
        touched = {x for a, b, _, _ in L for x in (a, b)}
        sp = lambda k: nn[k] if rng.random() < .5 else W.get_node(nn[k])

        def short(C, tol, call, **kv):
            o, d = rng.sample(sorted(touched), 2) if len(touched) > 1 else (None, None)
            if o is None:
                return
            k = rng.choice([1, 1, 2, 3, 5, 40])
            hc = rng.random() < .6
            q = dict(kind="short", o=o + 1, d=d + 1, k=k, C=C, tol=tol, routes=[], costs=[], hascost=int(hc), err=0)
            if hc:
                kv["return_cost"] = True
            if k > 1 or rng.random() < .5:
                kv["k"] = k
            try:
                r = call(sp(o), sp(d), kv)
                if hc:
                    r, q["costs"] = r[0], [ms(z) for z in r[1]]
                q["routes"] = [ids(W, nm, z) for z in r]
            except nx.NetworkXException:
                q["err"] = 1
            Q.append(q)

        def rand():
            k = rng.choice([1, 2, 3, 8])
            R = U.enumerate_k_random_routes(W, k)
            Q.append(dict(kind="rand", k=k, C=ff, tol=2, R=[dict(o=nn.index(a) + 1, d=nn.index(b) + 1, routes=[ids(W, nm, z) for z in rs])
                                                            for (a, b), rs in R.items() if a != b]))

        def obj():
            path = [rng.randrange(len(L))] if rng.random() < .95 else []
            while path and len(path) < 6 and rng.random() < .75:
                nxt = [k for k in range(len(L)) if L[k][0] == L[path[-1]][1]]
                path.append(rng.choice(nxt) if nxt and rng.random() < .9 else rng.randrange(len(L)))
            path = [k + 1 for k in path]
            if path and rng.random() < .1:
                path[rng.randrange(len(path))] = 0
            arg = [("nolink" if k == 0 else links[k - 1].name if rng.random() < .5 else links[k - 1]) for k in path]
            q = dict(kind="obj", path=path, ok=0, links=[], names=[], item=[], n=0, eq=[])
            how = rng.random()
            try:
                make = (lambda a: W.defRoute(a)) if how < .5 else (lambda a: ux.Route(W, a)) if eng == "py" else (lambda a: W.defRoute(a, name="r"))
                r = make(arg)
                q["ok"] = 1
            except Exception:
                Q.append(q)
                return None
            q.update(links=ids(W, nm, list(r)), names=ids(W, nm, r.links_name), item=[ids(W, nm, [r[k]])[0] for k in range(len(r))], n=len(r))
            for other in (path, path[:-1], path[1:], path + path[-1:], [rng.randrange(len(L)) + 1]):
                try:
                    r2 = make([links[k - 1] for k in other])
                except Exception:
                    continue
                q["eq"].append(dict(path=other, same=int(r == r2 and not (r != r2))))
            Q.append(q)
            return r

        def dist(C, mean, forms, rt_=-1, at=-1, tol=2):
            mat, dic = forms
            M = [[ms(mat[a.id, b.id]) for b in map(W.get_node, nn)] for a in map(W.get_node, nn)]
            agree = all(ms(dic[a, b]) == M[i][j] and ms(dic[W.get_node(a), W.get_node(b)]) == M[i][j] for i, a in enumerate(nn) for j, b in enumerate(nn))
            Q.append(dict(kind="dist", C=C, mean=mean, M=M, agree=int(agree), rt=rt_, at=at, tol=tol))

        def tsn():
            import contextlib, io
            g = max(1, int(dt)) * rng.choice([1, 1, 2, 3])
            al = rng.random() < .3 and n * steps * dt / g < 160
            with contextlib.redirect_stdout(io.StringIO()):
                U.construct_time_space_network(W, *([] if g == max(1, int(dt)) and rng.random() < .7 else [g]), **(dict(from_origin_only=False) if al else {}))
            cells = len(range(0, int(W.TMAX), g))
            A = [[ms(l.traveltime_actual[int(k * g / W.DELTAT + 1e-6)]) for k in range(cells)] for l in links]
            trips = {(v.orig.name, int(v.departure_time_in_second / g + 1e-6) * g) for v in W.VEHICLES.values() if v.departure_time_in_second < W.TMAX}
            S = [(v, k * g) for v in nn for k in range(cells)] if al else sorted(trips)
            q = dict(kind="tsn", A=A, g=int(g * 1000), cells=cells, S=[], tmax=int(W.TMAX * 1000),
                     missing=sum(z not in W.TSN_costs for z in S))
            for src in rng.sample(S, min(2, len(S))):
                if src in W.TSN_costs:
                    C, P = W.TSN_costs[src], W.TSN_paths[src]
                    q["S"].append(dict(v=nn.index(src[0]) + 1, k=src[1] // g, cost=[ms(C.get((v, "end"), -.001)) for v in nn],
                                       path=[[[nn.index(a) + 1, b // g] for a, b in P.get((v, "end"), [])[:-1]] for v in nn]))
            Q.append(q)

        for _ in range(rng.randint(2, 4)):
            z = rng.random()
            if z < .4:
                short(ff, 2, lambda o, d, kv: U.enumerate_k_shortest_routes(W, o, d, **kv))
            elif z < .6:
                C = [int(round(l.length * 1000)) for l in links]
                short(C, 2, lambda o, d, kv: U.enumerate_k_shortest_routes(W, o, d, cost_function=lambda l: l.length, **kv))
            else:
                tab = {l.name: rng.choice([0, 1, 1, 2, 5, 9]) for l in links}
                short([tab[l.name] * 1000 for l in links], 2, lambda o, d, kv: U.enumerate_k_shortest_routes(W, o, d, cost_function=lambda l: tab[l.name], **kv))
        if rng.random() < .5:
            rand()
        for _ in range(rng.randint(2, 5)):
            obj()
        dist([int(round(l.length * 1000)) for l in links], 0, (U.get_shortest_path_distance_between_all_nodes(W, return_matrix=True), U.get_shortest_path_distance_between_all_nodes(W)))
        if sim:
            made = 0
            for _ in range(20):
                o, d = rng.sample(range(n), 2)
                try:
                    if len(touched) < 2 or not U.enumerate_k_shortest_routes(W, nn[o], nn[d]):
                        continue
                except nx.NetworkXException:
                    continue
                W.adddemand(nn[o], nn[d], 0, steps * dt, rng.choice([.2, .5, 1.]))
                made += 1
                if made >= 3:
                    break
            part = rng.random() < .3 and made
            W.exec_simulation(until_t=round(dt * rng.randint(5, steps - 1), 6)) if part else W.exec_simulation()
            now = int(W.T)
            for _ in range(2):
                t = rng.choice([0, dt, rng.randint(0, 2 * steps) * dt / 2, steps * dt, steps * dt + 50])
                t = round(t, 6)
                if part:
                    t = min(t, (now - 1) * dt)
                if rng.random() < .6:
                    C = [ms(l.instant_travel_time(t)) for l in links]
                    short(C, 8, lambda o, d, kv: U.enumerate_k_shortest_routes_on_t(W, o, d, t, **kv) if rng.random() < .5 else
                          U.enumerate_k_shortest_routes_on_t(W, o, d, t=t, **kv))
                else:
                    tab = {l.name: rng.randint(0, 5) for l in links}
                    short([int(tab[l.name] * 1000 + t * 2) for l in links], 8, lambda o, d, kv: U.enumerate_k_shortest_routes_on_t(
                        W, o, d, t, cost_function=lambda l, t: tab[l.name] + t / 500, **kv))
            A = {l.name: [ms(z) for z in l.traveltime_actual] for l in links}
            for _ in range(3):
                r = obj()
                if r is not None and len(r):
                    t = rng.choice([0, -3 * dt, rng.randint(0, 2 * steps) * .5 * dt, rng.randint(0, steps) * dt, steps * dt, steps * dt + 100])
                    t = round(t, 6)
                    tt, det = r.actual_travel_time(t, return_details=True)
                    Q.append(dict(kind="tt", path=ids(W, nm, r), A=[A[l.name] for l in r], t=ms(t) if t >= 0 else int(t * 1000), dt=int(dt * 1000), tt=ms(tt), det=[ms(z) for z in det],
                                  tt2=ms(r.actual_travel_time(t))))
            if made:
                rts = max(1, int(duo / dt + 1e-6))
                for t in (rng.choice([0, rng.randint(0, 2 * steps) * dt / 2]), steps * dt, None):
                    if t is None:
                        ts = (now - 1) // rts * rts
                        forms = [U.get_shortest_path_instantaneous_travel_time_between_all_nodes(W, return_matrix=b) for b in (True, False)]
                        rt_ = at = -1
                    else:
                        if part:
                            t = min(t, (now - 1) * dt)
                        t = round(t, 6)
                        ts = min(int(t / dt + 1e-6), steps - 1) // rts * rts
                        f = U.get_shortest_path_instantaneous_travel_time_between_all_nodes_on_t
                        forms = [f(W, t, return_matrix=True), f(W, t)]
                        rt_, at = ms(f(W, t, return_time=True)[1]), ms(ts * dt)
                    dist([ms(l.instant_travel_time((ts + .01) * dt)) for l in links], 1, forms, rt_, at, tol=8)
            if made and not part and rng.random() < .6:
                tsn()
            if rng.random() < .3:
                rand()
    except uxenv.MachineryError:
        raise
    except Exception as e:
        import traceback
        return None, "%s: %s %s" % (type(e).__name__, str(e)[:300], traceback.format_exc()[-600:])
    return c, ""


def run(ctx):
    r = tlc.run("UXRoutesModel", cfg="UXRoutesModel" if ctx.tier == "thorough" else "UXRoutesModelQ")
    ctx.add_tlc(r)
    ctx.note("model_states", r.distinct)
    for eng, cnt in (("py", 260), ("cpp", 260)):
        uxenv.load(cpp=eng == "cpp")
        items = [(eng, ctx.seed * 100003 + k, "%s/%d" % (eng, ctx.seed * 100003 + k)) for k in range(ctx.n(cnt * 2, cnt * 15))]
        cases = []
        for it, r in zip(items, pool.run(job, items, per_item=120, total=1500)):
            if isinstance(r, pool.Died):
                ctx.viol("crash", it[2], r.why)
            elif r[1]:
                ctx.viol("crash", it[2], r[1])
            else:
                cases.append(r[0])
                for q in r[0]["Q"]:
                    ctx.note({"short": "shortest_enumerations", "rand": "random_enumerations", "obj": "route_objects", "tt": "route_travel_times", "tsn": "time_space_networks", "dist": "distance_tables"}[q["kind"]])
        for cid, cl in judge.judge(ctx, "UXRoutesTrace", cases, batch=130):
            ctx.viol(cl, cid, "", dict(case=cid))
        if cases:
            ctx.sample(dict(case=cases[0]["id"], links=cases[0]["L"], requests=[q["kind"] for q in cases[0]["Q"]]))
