"""Road maps and grids become the networks they describe."""
import contextlib, io, random, warnings
import uxenv, pool, judge, tlc

CLS = ["motorway", "trunk", "primary", "secondary", "tertiary", "residential", "living_street", "service"]
DEF1 = dict(motorway=(3, 100), trunk=(3, 60), primary=(2, 50), secondary=(2, 50), residential=(1, 30), tertiary=(1, 30), others=(1, 30))
DEF2 = dict(motorway=(3, 100), trunk=(3, 80), primary=(2, 60), secondary=(2, 50), tertiary=(2, 40), residential=(1, 30), living_street=(1, 20),
            service=(1, 20), others=(1, 40))


def r(x, k=1):
    return int(round(float(x) * k))


def see(W):
    ni = {id(n): k + 1 for k, n in enumerate(W.NODES)}
    return dict(N=[dict(name=n.name, x=r(n.x, 100), y=r(n.y, 100), fc=-1 if n.flow_capacity is None or n.flow_capacity < 0 else r(n.flow_capacity, 1000),
                        lanes=max(0, int(n.number_of_lanes or 0))) for n in W.NODES],
                L=[dict(name=l.name, s=ni.get(id(l.start_node), 0), e=ni.get(id(l.end_node), 0), len=r(l.length, 10), sp=r(l.u, 36), lanes=int(l.number_of_lanes),
                        kpl=r(l.kappa / l.number_of_lanes, 1000)) for l in W.LINKS])


def world(ux, rng, eng):
    kw = dict(cpp=True) if eng == "cpp" else {}
    W = ux.World("c24", deltan=5, tmax=600, random_seed=1, print_mode=0, save_mode=0, show_mode=0, show_progress=0, **kw)
    if rng.random() < .6:       # something is there already, with names the map uses as well
        a = W.addNode(rng.choice(["0", "11", "A"]), 500, 700)
        b = W.addNode(rng.choice(["1", "12", "B"]), 900, 700, flow_capacity=rng.choice([None, .9]))
        W.addLink(rng.choice(["main", "0", "x"]), a, b, length=300, free_flow_speed=15, jam_density=.25)
    return W


@contextlib.contextmanager
def served(G):
    """the map server is replaced by the map given"""
    import osmnx as ox
    old = ox.graph.graph_from_bbox
    ox.graph.graph_from_bbox = lambda *a, **k: G
    try:
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            yield
    finally:
        ox.graph.graph_from_bbox = old


def attrs(rng, q, ed, lists):
    """road attributes: what the spec knows (q) and what the map says (ed)"""
    c = rng.choice(CLS + ["track"])
    if rng.random() < .15:
        c2 = rng.choice(CLS)
        ed["highway"], q["cls"] = [c, c2], [c, c2]
    else:
        q["cls"] = [c]
        ed["highway"] = c + ("_link" if rng.random() < .2 and c in CLS[:5] else "")
    x = rng.random()
    nm = rng.choice(["main", "main", "A street", "ring"])
    if x < .6:
        q["name"], ed["name"] = nm, nm
    elif x < .75:
        q["name"], ed["name"] = nm, [nm, "other"]
    else:
        q["name"] = ""
    x = rng.random()
    if x < .5:
        q["lanes"] = rng.randint(1, 6)
        ed["lanes"] = str(q["lanes"])
    elif x < .65 and lists:
        v = [rng.randint(1, 5), rng.randint(1, 5)]
        q["lanes"], ed["lanes"] = max(v), [str(z) for z in v]
    else:
        q["lanes"] = -1
    x = rng.random()
    if x < .45:
        v = rng.choice([20, 30, 40, 50, 60, 80, 100])
        q["sp"], ed["maxspeed"] = v * 10, str(v)
    elif x < .6 and lists:
        v = rng.choice([(30, 50), (40, 60), (50, 80)])
        q["sp"], ed["maxspeed"] = sum(v) * 5, [str(z) for z in v]
    else:
        q["sp"] = -1


def table(D):
    return {k: dict(lanes=a, sp=r(b * 10)) for k, (a, b) in D.items()}


def c_merge(rng, ux, O1):
    n = rng.randint(3, 8)
    sp = rng.choice([1, 1, 2])
    N = [[100 + i, rng.randint(0, 8) * sp, rng.randint(0, 8) * sp] for i in range(n)]
    L = []
    for k in range(rng.randint(2, 2 * n)):
        a, b = rng.choice(N)[0], rng.choice(N)[0]
        if a == b and rng.random() < .7:
            continue
        L.append(["r%d" % k, a, b, rng.randint(1, 4), rng.choice([10, 20, 30])])
        if rng.random() < .4:
            L.append(["r%db" % k, b, a, rng.randint(1, 4), rng.choice([10, 20, 30])])
    if not L:
        return None
    t, bidir, rounds = rng.randint(1, 4), rng.random() < .5, rng.randint(1, 4)

    def rec(nl):
        return dict(N=[dict(id=x[0], x=r(x[1]), y=r(x[2])) for x in nl[0]], L=[dict(name=l[0], s=l[1], e=l[2], lanes=l[3], sp=l[4]) for l in nl[1]],
                    len=[r(l[5], 100) for l in nl[1]])
    cur, R = ([list(x) for x in N], [list(x) for x in L]), []
    for _ in range(rounds):
        cur = O1.osm_network_postprocessing(cur[0], cur[1], t + .5, node_merge_iteration=1, enforce_bidirectional=bidir)
        R.append(rec(cur))
    al = rec(O1.osm_network_postprocessing([list(x) for x in N], [list(x) for x in L], t + .5, node_merge_iteration=rounds, enforce_bidirectional=bidir))
    return dict(k="merge", t=t, bidir=bidir, N=[dict(id=x[0], x=x[1], y=x[2]) for x in N], L=[dict(name=l[0], s=l[1], e=l[2], lanes=l[3], sp=l[4]) for l in L],
                R=R, all=al)


def c_import1(rng, ux, O1):
    import networkx as nx
    G = nx.MultiDiGraph()
    n = rng.randint(2, 6)
    nodes = []
    for i in range(n):
        nodes.append(dict(id=11 + i, x=rng.randint(0, 500), y=rng.randint(0, 500)))
        G.add_node(11 + i, x=nodes[i]["x"], y=nodes[i]["y"])
    eds = {}
    for k in range(rng.randint(1, 9)):
        a, b = rng.choice(nodes)["id"], rng.choice(nodes)["id"]
        q, ed = dict(s=a, e=b, osmid=str(900 + k), oneway=True), dict(osmid=900 + k)
        attrs(rng, q, ed, False)
        if rng.random() < .2:
            ed["osmid"] = [ed["osmid"], 5]
        key = G.add_edge(a, b, **ed)
        eds[a, b, key] = q
    kw, A = {}, dict(DEF1)
    if rng.random() < .4:
        kw = dict(default_number_of_lanes_trunk=5, default_maxspeed_trunk=90, default_number_of_lanes_others=2, default_maxspeed_others=20,
                  default_number_of_lanes_mortorway=4, default_maxspeed_mortorway=120)
        A.update(trunk=(5, 90), others=(2, 20), motorway=(4, 120))
    with served(G):
        N, L = O1.import_osm_data(bbox=[0, 0, 1, 1], **kw)
    return dict(k="import1", G=nodes, Q=[eds[e] for e in G.edges], A=table(A), N=[dict(id=x[0], x=r(x[1]), y=r(x[2])) for x in N],
                L=[dict(name=l[0], s=l[1], e=l[2], lanes=int(l[3]), sp=r(l[4], 36)) for l in L])


def c_load1(rng, ux, O1, eng):
    W = world(ux, rng, eng)
    P = see(W)
    n = rng.randint(2, 6)
    N = [[11 + i, rng.randint(0, 300), rng.randint(0, 300)] for i in range(n)]
    L = []
    for k in range(rng.randint(1, 8)):
        a, b = rng.sample(range(n), 2)
        L.append([rng.choice(["main", "", "x", "r%d" % k]), 11 + a, 11 + b, rng.randint(1, 4), rng.choice([10., 12.5, 20.]), rng.randint(1, 40) / 8])
    coef = rng.choice([100, 111, 1000])
    kj = rng.choice([.2, .15])
    O1.osm_network_to_World(W, [tuple(x) for x in N], [list(l) for l in L], default_jam_density=kj, coef_degree_to_meter=coef)
    return dict(k="load1", P=P, N=[dict(id=x[0], nm=str(x[0]), x=x[1] * 100, y=x[2] * 100) for x in N], kpl=r(kj, 1000),
                L=[dict(name=l[0], s=l[1], e=l[2], lanes=l[3], sp=r(l[4], 36), len=r(l[5] * coef, 10)) for l in L], W=see(W))


def c_import2(rng, ux, O2, eng):
    import networkx as nx
    from shapely.geometry import LineString
    import math
    W = world(ux, rng, eng)
    P = see(W)
    G = nx.MultiDiGraph(crs="epsg:32654")
    n = rng.randint(2, 6)
    pos = []
    while len(pos) < n:
        p = (300000 + rng.randint(0, 2000), 3900000 + rng.randint(0, 2000))
        if p not in pos:
            pos.append(p)
            G.add_node(len(pos) - 1 + 40, x=p[0], y=p[1])
    eds = {}
    bare = rng.random() < .15       # a map without optional attributes
    for k in range(rng.randint(1, 8)):
        a, b = rng.sample(range(n), 2)
        ow = rng.random() < .5
        q, ed = dict(oneway=ow), dict(osmid=k, oneway=ow)
        attrs(rng, q, ed, True)
        if bare:
            q.update(lanes=-1, sp=-1)
            ed.pop("lanes", 0), ed.pop("maxspeed", 0)
        elif rng.random() < .08:
            ed["maxspeed"] = "fast"
            q.update(sp=-1, cls=["others"])
            ed["highway"] = "road"
        line = [pos[a], pos[b]]
        if rng.random() < .3:
            line.insert(1, (pos[a][0] + rng.randint(-300, 300), pos[b][1] + rng.randint(-300, 300)))
        ed["geometry"] = LineString(line)
        ln = sum(math.dist(u, v) for u, v in zip(line, line[1:]))
        ed["length"] = ln
        q.update(p=[r(z, 100) for z in pos[a]], q=[r(z, 100) for z in pos[b]], len=r(ln, 10))
        eds[40 + a, 40 + b, G.add_edge(40 + a, 40 + b, **ed)] = q
    kw, A = {}, dict(DEF2)
    if rng.random() < .4:
        kw = dict(maxspeed_by_road_type={"trunk": 25., "others": 5.}, lanes_by_road_type={"residential": 2, "trunk": 4})
        A.update(trunk=(4, 90), others=(1, 18), residential=(2, 30))
    over, cap = rng.random() < .25, rng.random() < .6
    import osmnx as ox
    order = list(ox.graph_to_gdfs(ox.project_graph(G, to_crs="epsg:32654"))[1].index)     # the order of the roads on the map
    with served(G):
        O2.osm_network_to_World(W, bbox=[0, 0, 1, 1], simplification=False, override_osm_attributes=over, set_node_capacity=cap,
                                kwargs_dict_for_osmnx_project_graph=dict(to_crs="epsg:32654"), **kw)
    return dict(k="import2", P=P, Q=[eds[e] for e in order], A=table(A), over=over, cap=cap, W=see(W))


def c_grid(rng, ux, U, eng):
    kw = dict(cpp=True) if eng == "cpp" else {}
    W = ux.World("c24", deltan=5, tmax=600, random_seed=1, print_mode=0, save_mode=0, show_mode=0, show_progress=0, **kw)
    w, h = rng.randint(1, 5), rng.randint(1, 5)
    ln, u, k = rng.choice([100, 250]), rng.choice([10, 20]), rng.randint(1, 3)
    N, L = U.generate_grid_network(W, w, h, length=ln, free_flow_speed=u, number_of_lanes=k)
    kn = set(N) == {(i, j) for i in range(w) for j in range(h)} and all((n.x, n.y) == p and W.get_node(n.name) is n for p, n in N.items())
    kl = len(L) == len(W.LINKS) and all((l.start_node.x, l.start_node.y, l.end_node.x, l.end_node.y) == p and W.get_link(l.name) is l for p, l in L.items())
    return dict(k="grid", w=w, h=h, len=ln * 10, sp=u * 36, lanes=k, keysn=int(kn), keysl=int(kl), W=see(W))


def job(item):
    eng, seed, tid, kind = item
    rng = random.Random("c24/%s/%d" % (kind, seed))
    ux = uxenv.load(cpp=eng == "cpp")
    try:
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("ignore")
            from uxsim.OSMImporter.OSMImporter import OSMImporter as O1
            from uxsim.OSMImporter2 import OSMImporter2 as O2
            from uxsim.Utilities import Utilities as U
            c = (c_merge(rng, ux, O1) if kind == "merge" else c_import1(rng, ux, O1) if kind == "import1" else c_load1(rng, ux, O1, eng) if kind == "load1"
                 else c_import2(rng, ux, O2, eng) if kind == "import2" else c_grid(rng, ux, U, eng))
    except uxenv.MachineryError:
        raise
    except Exception as e:
        import traceback
        return None, "%s: %s %s" % (type(e).__name__, str(e)[:300], traceback.format_exc()[-600:])
    if c:
        c["id"] = tid
    return c, ""


def run(ctx):
    for cfg in ("UXOsmModel", "UXOsmModelB") + (("UXOsmModel4",) if ctx.thorough else ()):
        m = tlc.run("UXOsmModel", cfg=cfg)
        ctx.add_tlc(m)
        ctx.note("model_states", m.distinct)
    uxenv.load(cpp=True)
    import osmnx, geopandas, neatnet    # loaded once, before the workers are made
    items = []
    for kind, cnt in (("merge", 240), ("import1", 120), ("load1", 100), ("import2", 160), ("grid", 24)):
        for k in range(ctx.n(cnt * 2, cnt * 12)):
            s = ctx.seed * 100003 + k
            items.append((["py", "cpp"][k % 2], s, "%s/%s/%d" % (["py", "cpp"][k % 2], kind, s), kind))
    cases = []
    for it, r_ in zip(items, pool.run(job, items, per_item=120, total=1500)):
        if isinstance(r_, pool.Died):
            ctx.viol("crash", it[2], r_.why)
        elif r_[1]:
            ctx.viol("crash", it[2], r_[1])
        elif r_[0]:
            cases.append(r_[0])
            ctx.note("cases_" + it[3], 1)
    for cid, cl in judge.judge(ctx, "UXOsmTrace", cases, batch=400):
        ctx.viol(cl, cid, "", dict(case=next(c for c in cases if c["id"] == cid)))
    if cases:
        ctx.sample(dict(case=cases[0]["id"]))
