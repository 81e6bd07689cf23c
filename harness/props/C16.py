"""The result tables say what the vehicles did."""
import contextlib, io, json, math, os, random, shutil, tempfile
import pandas as pd
import uxenv, scen, rec, pool, judge
from scen import dt_of

NAN, INF = -888888888, 888888888
ST = {"home": 0, "wait": 1, "run": 2, "end": 3, "abort": 4}


def num(x, k=1.0):
    x = float(x)
    if math.isnan(x):
        return NAN
    if math.isinf(x):
        return INF if x > 0 else -INF
    return int(round(x * k))


def facts(sc, Wd, vobj, rng):
    dt = dt_of(sc)
    ct = 100.0 / dt                     # seconds to 1/100 step
    ni = {n["name"]: k + 1 for k, n in enumerate(sc["N"])}
    li = {l["name"]: k + 1 for k, l in enumerate(sc["L"])}
    c = dict(dn=sc["W"]["deltan"], n=sc["W"]["steps"], nn=len(sc["N"]), dtds=int(round(dt * 10)), one=int(round(ct)))
    c["L"], c["V"] = [], []
    mx = 1
    for l in sc["L"]:
        o = Wd.get_link(l["name"])
        tta = [num(z, ct) for z in o.traveltime_actual]
        mx = max([mx] + tta)
        a, b = sc["N"][l["s"]], sc["N"][l["e"]]
        c["L"].append(dict(name=l["name"], s=l["s"] + 1, e=l["e"] + 1, len=num(l["len"], 100), fft=num(l["len"] / o.u, ct),
                           closed=bool(o.capacity_in == 0), tta=tta, tti=[num(z, ct) for z in o.traveltime_instant],
                           ca=[num(z) for z in o.cum_arrival], cd=[num(z) for z in o.cum_departure],
                           x0=num(a["x"], 10), y0=num(a["y"], 10), x1=num(b["x"], 10), y1=num(b["y"], 10)))
    c["tu"] = mx // 500 + 1
    dm = 1
    for i in sorted(vobj):
        o, v = vobj[i], sc["V"][i]
        lg = []
        for t, s, l, x, sp, ve in zip(o.log_t, o.log_state, o.log_link, o.log_x, o.log_s, o.log_v):
            lg.append([ST[s], num(t, ct), 0 if l == -1 else li[l.name], num(x, 1000), num(sp, 1000), num(ve, 1000)])
        route = []
        for e in lg:                    # links in the order they were travelled, from the log itself
            if e[2] and (not route or route[-1][0] != e[2] or e[3] < route[-1][1]):
                route.append([e[2], e[3]])
            elif e[2]:
                route[-1][1] = e[3]
        dm = max(dm, num(o.distance_traveled, 100))
        c["V"].append(dict(name=o.name, o=v["o"] + 1, d=v["d"] + 1, st=ST[o.state], dep=v["dep"],
                           tt=num(o.travel_time / dt) if o.travel_time != -1 else -1, route=[r[0] for r in route],
                           x=num(o.x, 100) if o.state == "run" else 0, dist=num(o.distance_traveled, 100),
                           vs=[e[5] for e in lg if e[5] != -1000], log=lg))
    c["du"] = dm // 500 + 1
    return c, ni, li, ct


def printed(A, Wd):
    """the numbers of the printed summary, -1 where it has no such line; in tenths (ratio: thousandths)"""
    out, mode = io.StringIO(), Wd.print_mode
    with contextlib.redirect_stdout(out):
        A.print_simple_stats(force_print=True)
    r = dict(speed=-1, comp=-1, total=-1, tt=-1, mean=-1, delay=-1, ratio=-1, dist=-1)
    for l in out.getvalue().split("\n"):
        k, _, v = l.strip().partition(":")
        v = v.split()
        key = {"average speed": "speed", "total travel time": "tt", "average travel time of trips": "mean", "average delay of trips": "delay",
               "delay ratio": "ratio", "total distance traveled": "dist"}.get(k)
        if key:
            r[key] = num(v[0], 1000 if key == "ratio" else 10)
        elif k == "number of completed trips":
            r["comp"], r["total"] = num(v[0]), num(v[2])
    return r


def files(A, rng):
    """tables written to files: cells that differ from the table of the analyzer"""
    d = tempfile.mkdtemp(prefix="c16_")
    out = {}
    try:
        A.output_data(os.path.join(d, "x"))
        for k, df in (("basic", A.basic_to_pandas()), ("od", A.od_to_pandas()), ("mfd", A.mfd_to_pandas()), ("link", A.link_to_pandas()),
                      ("link_traffic_state", A.link_traffic_state_to_pandas()), ("vehicles", A.vehicles_to_pandas())):
            f = pd.read_csv(os.path.join(d, "x_%s.csv" % k), dtype=str, keep_default_na=False)
            bad = [] if list(f.columns) == list(df.columns) and len(f) == len(df) else ["shape"]
            for col in df.columns if not bad else []:
                for a, b in zip(f[col], df[col]):
                    try:
                        ok = a == "" and math.isnan(float(b)) or abs(float(a) - float(b)) <= 1e-6 * max(1, abs(float(b))) or float(a) == float(b)
                    except (TypeError, ValueError):
                        ok = a == str(getattr(b, "name", b))
                    if not ok and len(bad) < 3:
                        bad.append("%s %r %r" % (col, a, str(b)))
            out[k] = bad
    finally:
        shutil.rmtree(d)
    return out


def tables(sc, Wd, vobj, c, ni, li, ct, rng):
    A = Wd.analyzer
    dt = dt_of(sc)
    order = sorted(vobj)
    pos = {vobj[i].name: k for k, i in enumerate(order)}
    df = A.od_to_pandas()
    c["od"] = [dict(o=ni[r.orig], d=ni[r.dest], total=num(r.total_trips), comp=num(r.completed_trips), free=num(r.free_travel_time, ct),
                    tt=num(r.average_travel_time, ct), ttstd=num(r.stddiv_travel_time, 10 / dt), dmin=num(r.shortest_distance, 100),
                    dist=num(r.average_distance_traveled_per_veh, 100), diststd=num(r.stddiv_distance_traveled_per_veh, 1000 / c["du"]))
               for r in df.itertuples()]
    A.basic_analysis()
    b = A.basic_to_pandas().iloc[0]
    c["sum"] = dict(total=num(b["total_trips"]), comp=num(b["completed_trips"]), tt=num(b["total_travel_time"], ct),
                    mean=num(b["average_travel_time"], ct), delay=num(b["total_delay"], ct), mdelay=num(b["average_delay"], ct),
                    dist=num(A.total_distance_traveled, 100), speed=num(A.average_speed, 1000))
    c["printed"] = printed(A, Wd)
    tr = [None] * len(order)
    df = A.vehicle_trip_to_pandas()
    for r in df.itertuples():
        tr[pos[r.name]] = dict(name=r.name, o=ni[r.orig], d=ni[r.dest], dep=num(r.departure_time, ct), st=ST[r.final_state],
                               tt=num(r.travel_time, ct) if r.travel_time != -1 else NAN, dist=num(r.distance_traveled, 100),
                               speed=num(r.average_speed, 1000))
    c["trips"] = tr if len(df) == len(order) else tr + ["extra"]
    c["trips"] = [t for t in c["trips"] if t is not None]
    c["links"] = [dict(name=r.link, s=ni[r.start_node], e=ni[r.end_node], vol=num(r.traffic_volume), rem=num(r.vehicles_remain),
                       free=num(r.free_travel_time, ct), tt=num(r.average_travel_time, ct), ttstd=num(r.stddiv_travel_time, 10 * ct / c["tu"]),
                       ratio=num(r.delay_ratio, 100), len=num(r.length, 100)) for r in A.link_to_pandas().itertuples()]
    df = A.link_cumulative_to_pandas()
    c["cum"] = [dict(t=[num(z, ct) for z in g["t"]], a=[num(z) for z in g["arrival_count"]], d=[num(z) for z in g["departure_count"]],
                     tta=[num(z, ct) for z in g["actual_travel_time"]], tti=[num(z, ct) for z in g["instantanious_travel_time"]])
                for l in sc["L"] for g in [df[df["link"] == l["name"]]]]
    df = A.vehicles_to_pandas() if rng.random() < 0.7 else A.log_vehicles_to_pandas()
    code = {"waiting_at_origin_node": -1, "trip_aborted": -2, "trip_end": -3}
    c["vrows"] = [dict(rows=[], o=0, d=0, dn=0) for _ in order]
    for nm, dn, og, de, t, ln, x, s, v in zip(*[list(df[k]) for k in ("name", "dn", "orig", "dest", "t", "link", "x", "s", "v")]):
        e = c["vrows"][pos[nm]]
        e["rows"].append([num(t, ct), code.get(ln, 0) or li[ln], num(x, 1000), num(s, 1000), num(v, 1000)])
        e.update(o=ni[og], d=ni[de], dn=num(dn))
    c["gps"] = [[] for _ in order]
    for r in A.gps_like_log_to_pandas().itertuples():
        c["gps"][pos[r.name]].append([num(r.t, ct), num(r.x, 10), num(r.y, 10)])
    c["files"] = files(A, rng) if rng.random() < .12 else {}
    # areas: arbitrary node sets, as names or objects
    names = [n["name"] for n in sc["N"]]
    areas = [rng.sample(range(len(names)), rng.randint(1, max(1, len(names) // 2))) for _ in range(3)]

    def spell(a):
        return [names[k] if rng.random() < 0.5 else Wd.get_node(names[k]) for k in a]
    c["areas"] = [[k + 1 for k in a] for a in areas]
    lab = ["A", "B", "C"]
    c["area"] = []
    for border in (True, False):
        for a, r in zip(areas, A.area_to_pandas([spell(a) for a in areas], lab, border_include=border).itertuples()):
            c["area"].append(dict(nodes=[k + 1 for k in a], border=border, n=num(r.n_links), vol=num(r.traffic_volume), rem=num(r.vehicles_remain),
                                  tt=num(r.total_travel_time, ct), delay=num(r.average_delay, 100), speed=num(r.average_speed, 100)))
    if rng.random() < 0.5:
        df = A.areas2areas_to_pandas([spell(a) for a in areas], lab)
        col = lab
    else:
        df = A.areas2areas_to_pandas([[names[k] for k in a] for a in areas])
        col = ["area %d including %s" % (i, names[a[0]]) for i, a in enumerate(areas)]
    c["area2"] = []
    for r in df.itertuples():
        i, j = col.index(r.origin_area), col.index(r.destination_area)
        c["area2"].append(dict(i=i + 1, j=j + 1, a=c["areas"][i], b=c["areas"][j], total=num(r.total_trips), comp=num(r.completed_trips),
                               tt=num(r.average_travel_time, ct), dist=num(r.average_distance_traveled, 100), dmin=num(r.average_shortest_distance, 100)))
    grp = [rng.sample(range(len(order)), rng.randint(1, len(order))) for _ in range(3)]
    gobj = [[vobj[order[k]] for k in g] for g in grp]
    df = A.vehicle_groups_to_pandas(gobj, lab) if rng.random() < 0.6 else A.vehicle_groups_to_pandas(gobj)
    c["group"] = [dict(vs=[k + 1 for k in g], total=num(r.total_trips), comp=num(r.completed_trips), tt=num(r.average_travel_time, ct),
                       dist=num(r.average_traveled_distance, 100), speed=num(r.average_speed, 1000), delay=num(r.average_delay_ratio, 1000),
                       delaystd=num(r.std_delay_ratio, 500), detour=num(r.average_detour_ratio, 1000))
                  for g, r in zip(grp, df.itertuples())]


def job(item):
    eng, seed, kw, tid = item
    rng = random.Random("c16/" + tid)
    sc = scen.generate(seed, engine=eng, **kw)
    n = sc["W"]["steps"]
    peek = rng.random() < 0.3
    try:
        Wd, vobj = rec.build(sc, eng)
        cuts = sorted({e["at"] for e in sc["E"]} | ({rng.randint(5, n - 5)} if peek else set()))
        for t in cuts:
            T = int(Wd.T) if Wd.finalized else 0
            if t > T:
                Wd.exec_simulation(duration_t2=(t - T - 0.5) * dt_of(sc) + dt_of(sc))
            if peek and t not in {e["at"] for e in sc["E"]}:
                A = Wd.analyzer             # results read half-way must not stick
                A.od_to_pandas(), A.link_to_pandas(), A.vehicles_to_pandas(), A.vehicle_trip_to_pandas(), A.basic_analysis()
            for e in sc["E"]:
                if e["at"] == t:
                    rec.apply_event(Wd, sc, e, vobj, eng)
        Wd.exec_simulation()
        c, ni, li, ct = facts(sc, Wd, vobj, rng)
        tables(sc, Wd, vobj, c, ni, li, ct, rng)
    except uxenv.MachineryError:
        raise
    except Exception as e:
        import traceback
        return None, "%s: %s %s" % (type(e).__name__, str(e)[:300], traceback.format_exc()[-600:])
    c["id"] = tid
    return c, ""


FAMS = [("py", 50, {}), ("cpp", 40, {}), ("py", 20, dict(exact=False)), ("cpp", 16, dict(exact=False)),
        ("py", 20, dict(events=True)), ("py", 10, dict(topo="parallel")), ("py", 10, dict(topo="deadend")), ("cpp", 10, dict(topo="deadend"))]


def run(ctx):
    items = []
    for fi, (eng, cnt, kw) in enumerate(FAMS):
        for k in range(ctx.n(cnt * 3, cnt * 12)):
            seed = (ctx.seed * 53 + fi) * 10007 + k
            items.append((eng, seed, kw, "%s/%d/%s" % (eng, seed, json.dumps(kw))))
    for eng in ("py", "cpp"):
        uxenv.load(cpp=eng == "cpp")
        its = [i for i in items if i[0] == eng]
        cases = []
        for it, r in zip(its, pool.run(job, its, per_item=120, total=1500)):
            if isinstance(r, pool.Died):
                ctx.viol("crash", it[3], r.why)
            elif r[1]:
                ctx.viol("crash", it[3], r[1])
            else:
                cases.append(r[0])
                ctx.note("trips", len(r[0]["V"]))
                ctx.note("od_rows", len(r[0]["od"]))
                ctx.note("area_and_group_rows", len(r[0]["area"]) + len(r[0]["area2"]) + len(r[0]["group"]))
        for cid, cl in judge.judge(ctx, "UXTables", cases):
            ctx.viol(cl, cid, "", dict(case=cid))
        if cases:
            ctx.sample(dict(case=cases[0]["id"], summary=cases[0]["sum"]))
