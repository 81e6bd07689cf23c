"""Scenarios written to files and read back, and networks read from rows of text."""
import csv, os, random, shutil, zlib
import numpy as np
import uxenv, pool, judge, tlc, scen, rec, hist
from scen import dt_of

RANDOM = ("adddemand_area2area2", "adddemand_nodes2nodes2")


def visit(obj, *a):
    """a user function that leaves a mark"""
    obj.marks = getattr(obj, "marks", 0) + 1


def toll_a(t):
    return 30.0 if t > 60 else 0.0


ATTR = [None, None, None, 7, "main street", {"type": "x", "w": [1, 2]}, ["a", 1.5], np.arange(3), 0, False, 2.5]


def txt(o):
    return repr(o) if not callable(o) else getattr(o, "__name__", "f")


def snap(W):
    N, L, V = [], [], []
    for n in W.NODES:
        d = dict(name=n.name, x=repr(float(n.x)), y=repr(float(n.y)), signal=repr([float(z) for z in n.signal]), phase=int(n.signal_phase),
                 clock=repr(float(n.signal_t)), offset=repr(float(n.signal_offset)), capacity=repr(n.flow_capacity if n.flow_capacity is None or n.flow_capacity >= 0 else None),
                 lanes=repr(n.number_of_lanes if n.flow_capacity is not None and n.flow_capacity >= 0 else None), attribute=txt(n.attribute), user_attribute=txt(n.user_attribute), user_function=txt(n.user_function),
                 into=repr([l.name for l in n.inlinks.values()]), out=repr([l.name for l in n.outlinks.values()]))
        N.append(d)
    for l in W.LINKS:
        toll = l.congestion_pricing
        d = dict(name=l.name, start=l.start_node.name, end=l.end_node.name)
        for k in ("length", "u", "kappa", "tau", "w", "capacity", "delta", "delta_per_lane", "q_star", "k_star", "merge_priority", "capacity_out", "capacity_in",
                  "free_flow_speed", "edie_dx"):
            d[k] = repr(float(getattr(l, k)))
        d.update(lanes=int(l.number_of_lanes), group=repr(list(l.signal_group)), attribute=txt(l.attribute), user_attribute=txt(l.user_attribute), user_function=txt(l.user_function),
                 toll=repr([float(toll(t)) for t in (0, 50, 61, 1000)] if toll else None))
        if hasattr(l, "capacity_in_remain"):
            d.update(buckets=repr([float(l.capacity_in_remain), float(l.capacity_out_remain)]))
        L.append(d)
    for v in W.VEHICLES.values():
        V.append(dict(name=str(v.name), o=v.orig.name, d=v.dest.name, dep=int(v.departure_time), attribute=txt(v.attribute)))
    return dict(N=N, L=L, V=V)


def definition(rng, sc, free):
    """calls: (kind, args, kw) for network and demand"""
    net = []
    ren = rng.random() < .3
    for n in sc["N"]:
        kw = dict(signal=list(n["sig"]), flow_capacity=n["fc"], number_of_lanes=n["lanes"])
        if n["off"] and rng.random() < .5 and n["sig"] != [0]:
            kw["signal_offset_old"] = n["off"]
        else:
            kw["signal_offset"] = n["off"]
        for k in ("attribute", "user_attribute"):
            a = rng.choice(ATTR)
            if a is not None:
                kw[k] = a
        if rng.random() < .1:
            kw["user_function"] = visit
        if ren:
            kw["auto_rename"] = True
        net.append(("node", [n["name"], n["x"], n["y"]], kw))
    for l in sc["L"]:
        kw = dict(free_flow_speed=l["u"], number_of_lanes=l["lanes"], merge_priority=l["prio"], signal_group=list(l["sg"]), capacity_out=l["cout"], capacity_in=l["cin"])
        if len(l["sg"]) == 1 and rng.random() < .5:
            kw["signal_group"] = l["sg"][0]
        if rng.random() < .4:
            kw["jam_density_per_lane"] = l["kappa"] / l["lanes"]
        else:
            kw["jam_density"] = l["kappa"]
        if l["toll"]:
            kw["congestion_pricing"] = rec.toll_fn(l)
        elif rng.random() < .1:
            kw["congestion_pricing"] = toll_a
        if rng.random() < .15:
            kw["eular_dx"] = rng.choice([50, 75.5, 100])
        for k in ("attribute", "user_attribute"):
            a = rng.choice(ATTR)
            if a is not None:
                kw[k] = a
        if rng.random() < .1:
            kw["user_function"] = visit
        name = l["name"]
        if ren:
            kw["auto_rename"] = True
            if rng.random() < .3:
                name = sc["L"][0]["name"]
        net.append(("link", [name, sc["N"][l["s"]]["name"], sc["N"][l["e"]]["name"], l["len"]], kw))
    if ren:     # a name asked for twice
        n = sc["N"][0]
        net.append(("node", [n["name"], n["x"] + 50, n["y"] + 50], dict(auto_rename=True)))
    dt = dt_of(sc)
    if not ren and rng.random() < .4:       # the definition is revised before it is saved
        for _ in range(rng.randint(1, 3)):
            l = rng.choice(sc["L"])
            net.append(("change", [l["name"]] + rng.choice([["change_free_flow_speed", rng.choice([5, 12.5, 25])], ["change_jam_density", rng.choice([.15, .2, .4])]]), {}))
    ods = sorted({(v["o"], v["d"]) for v in sc["V"]})
    dem = []
    kinds = ["adddemand"] * 3 + ["adddemand_point2point", "adddemand_area2area", "adddemand_nodes2nodes"] + ([] if ren else list(RANDOM))
    use = [rng.choice(kinds) for _ in range(rng.randint(2, 5))]
    mixed = rng.random() < .3 and not any(k in RANDOM for k in use)
    if not mixed:
        use = sorted(use, key=list(use).index)
    end = sc["W"]["steps"] * dt * .5
    for k in use:
        o, d = rng.choice(ods)
        t0 = rng.choice([0, 0, dt * rng.randint(0, 15)])
        t1 = min(end, t0 + dt * rng.randint(4, 20))
        kw = dict(volume=sc["W"]["deltan"] * rng.randint(1, 6)) if rng.random() < .5 else dict(flow=rng.choice([.1, .3, .5]))
        a = rng.choice(ATTR)
        if a is not None:
            kw["attribute"] = a
        no, nd = sc["N"][o], sc["N"][d]
        obj = rng.random() < .3
        if k == "adddemand":
            args = [("node", no["name"], obj), ("node", nd["name"], obj), t0, t1]
        elif k == "adddemand_point2point":
            args = [no["x"], no["y"], nd["x"], nd["y"], t0, t1]
        elif "area" in k:
            args = [no["x"], no["y"], rng.choice([1, 1100]), nd["x"], nd["y"], 1, t0, t1]
        else:
            os = sorted({o} | {x[0] for x in rng.sample(ods, min(2, len(ods)))})
            args = [("nodes", [sc["N"][i]["name"] for i in os if i != d] or [no["name"]], obj), ("nodes", [nd["name"]], obj), t0, t1]
        dem.append((k, args, kw))
    return net, dem


def call(W, q):
    k, args, kw = q
    real = []
    for a in args:
        if isinstance(a, tuple) and a[0] == "node":
            a = W.get_node(a[1]) if a[2] else a[1]
        elif isinstance(a, tuple):
            a = [W.get_node(x) if a[2] else x for x in a[1]]
        real.append(a)
    if k == "change":
        return getattr(W.get_link(args[0]), args[1])(args[2])
    f = {"node": W.addNode, "link": W.addLink}.get(k) or getattr(W, k)
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if k in ("node", "link"):
            return f(*real, **kw)
        n0 = len(W.VEHICLES)
        f(*real, **kw)
    return [dict(name=str(v.name), o=v.orig.name, d=v.dest.name, dep=int(v.departure_time), attribute=txt(v.attribute)) for v in list(W.VEHICLES.values())[n0:]]


def prints(W, sc, eng):
    """fingerprints of every step of the run"""
    vs = list(W.VEHICLES.values())
    s2 = dict(sc)
    ln = {l.name: k for k, l in enumerate(W.LINKS)}
    s2["N"] = [dict(name=n.name) for n in W.NODES]
    s2["L"] = [dict(name=l.name, len=float(l.length)) for l in W.LINKS]
    s2["V"] = [dict(add=-1) for _ in vs]
    W.exec_simulation()
    h = hist.history(W, s2, dict(enumerate(vs)), eng, int(W.T)) + [hist.results(W)]
    h = [zlib.crc32(repr(sorted(e.items())).encode()) & 0x7fffffff for e in h]
    return h + [sum(getattr(o, "marks", 0) for o in W.NODES + W.LINKS)]


def program(rng):
    """what is done with worlds 1.. and files 1..3"""
    E = lambda op, w, f=0, net=True, dem=True: dict(op=op, w=w, f=f, net=net, dem=dem, ok=0)
    k = rng.choice(["both", "both", "both2", "parts", "netonly", "demonly", "cross"])
    Q = [E("define", 1)]
    if k == "both":
        Q += [E("save", 1, 1), E("load", 2, 1)]
    elif k == "both2":
        Q += [E("save", 1, 1), E("load", 2, 1), E("save", 2, 2), E("load", 3, 2)]
    elif k == "parts":
        Q += [E("save", 1, 1), E("load", 2, 1, True, False), E("load", 2, 1, False, True)]
    elif k == "netonly":
        Q += [E("save", 1, 1, True, False), E("load", 2, 1, True, False), E("define", 2, 0, False, True)]
    elif k == "demonly":
        Q += [E("save", 1, 1, False, True), E("define", 2, 0, True, False), E("load", 2, 1, False, True)]
    else:
        Q += [E("save", 1, 1, True, False), E("save", 1, 2, False, True), E("load", 2, 1, True, False), E("load", 2, 2, False, True)]
    return Q


def job(item):
    eng, seed, kw, tid = item
    rng = random.Random("c15/" + tid)
    sc = scen.generate(seed, engine=eng, **kw)
    net, dem = definition(rng, sc, True)
    Q = program(rng)
    nw = max(q["w"] for q in Q)
    c = dict(id=tid, csv=False, rows=dict(N=[], L=[]), nw=nw, Q=Q, snap=[], hist=[])
    d = os.path.join(uxenv.scratch(), "c15-%d-%s" % (os.getpid(), seed))
    os.makedirs(d, exist_ok=True)
    where = "define"
    try:
        Ws = [rec.new_world(sc, eng) for _ in range(nw)]
        early = rng.random() < .4 and not any(x[2].get("auto_rename") for x in net)       # network and demand interleaved where the demand allows it
        base = None
        after = rng.random() < .2       # saved after the run
        done = set()
        late = {}
        for q in Q:
            W = Ws[q["w"] - 1]
            where = "%s %d" % (q["op"], q["w"])
            if q["op"] == "define":
                D = []
                todo = list(dem) if q["dem"] else []
                for x in (net if q["net"] else []):
                    call(W, x)
                    if early and q["dem"] and todo and todo[0][0] == "adddemand" and all(a[1] in W.NODES_NAME_DICT for a in todo[0][1][:2]) and x[0] == "link":
                        k, a, kv = todo.pop(0)
                        D.append(dict(kind=k, rand=False, veh=call(W, (k, a, kv))))
                for k, a, kv in todo:
                    D.append(dict(kind=k, rand=k in RANDOM, veh=call(W, (k, a, kv))))
                if q["dem"] and rng.random() < .25:      # a call that is refused is not part of the scenario
                    try:
                        W.adddemand("nowhere", sc["N"][0]["name"], 0, 100, volume=50)
                        raise uxenv.MachineryError("unknown node accepted")
                    except uxenv.MachineryError:
                        raise
                    except Exception:
                        pass
                if base is None:
                    s = snap(W)
                    base = dict(N=s["N"], L=s["L"], D=D)
                    c["base"] = base
            elif q["op"] == "save":
                if after and q["w"] not in done:
                    done.add(q["w"])
                    late[q["w"]] = snap(W)
                    late[q["w"], "h"] = prints(W, sc, eng)
                W.save_scenario(os.path.join(d, "f%d" % q["f"]), network=q["net"], demand=q["dem"])
            else:
                W.load_scenario(os.path.join(d, "f%d" % q["f"]), network=q["net"], demand=q["dem"])
            q["ok"] = 1
        ren = any(x[2].get("auto_rename") for x in net)
        c["drew"] = [int(ren and any(q["op"] == "define" and q["net"] and q["w"] == k + 1 for q in Q)) for k in range(nw)]
        for k, W in enumerate(Ws):
            where = "run %d" % (k + 1)
            c["snap"].append(late.get(k + 1) or snap(W))
            c["hist"].append(late.get((k + 1, "h")) or prints(W, sc, eng))
        if any(x[0] == "change" for x in net):      # initial buckets and cells were set up for the first definition
            for o in [c["base"]] + c["snap"]:
                for l in o["L"]:
                    l.pop("buckets"), l.pop("edie_dx")
            c["hist"] = [[] for _ in c["hist"]]
        # names of automatically numbered vehicles follow the order of the calls
        for s in c["snap"]:
            for v in s["V"]:
                v.pop("name")
        for e in c["base"]["D"]:
            for v in e["veh"]:
                v.pop("name")
    except uxenv.MachineryError:
        raise
    except Exception as e:
        import traceback
        return None, "%s: %s: %s %s" % (where, type(e).__name__, str(e)[:200], traceback.format_exc()[-500:])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return c, ""


def csv_job(item):
    """a network and demand read from text files; the twin is built by calls"""
    eng, seed, kw, tid = item
    rng = random.Random("c15csv/" + tid)
    sc = scen.generate(seed, engine=eng, **kw)
    c = dict(id=tid, csv=True, rows=dict(N=[], L=[]), nw=2, snap=[], hist=[],
             Q=[dict(op="define", w=1, f=0, net=True, dem=True, ok=1), dict(op="define", w=2, f=0, net=True, dem=True, ok=1)])
    d = os.path.join(uxenv.scratch(), "c15csv-%d-%s" % (os.getpid(), seed))
    os.makedirs(d, exist_ok=True)
    try:
        head = rng.random() < .6
        dt = dt_of(sc)
        ns = [[n["name"] if rng.random() < .8 else "node, " + n["name"], repr(n["x"]), repr(n["y"] + .5)] for n in sc["N"]]
        ls = [[l["name"], ns[l["s"]][0], ns[l["e"]][0], repr(float(l["len"])), repr(l["u"]), repr(l["kappa"]), repr(l["prio"])] for l in sc["L"]]
        ods = sorted({(v["o"], v["d"]) for v in sc["V"]})
        ds = []
        for _ in range(rng.randint(1, 5)):
            o, e = rng.choice(ods)
            t0 = dt * rng.randint(0, 12)
            r = [ns[o][0], ns[e][0], repr(t0), repr(min(t0 + dt * rng.randint(3, 15), sc["W"]["steps"] * dt * .6)), repr(rng.choice([.1, .35, .6, 1]))]
            if rng.random() < .4:
                r.append(repr(rng.choice([-1, sc["W"]["deltan"] * 3, 20.5])))
            ds.append(r)
        for fn, rows, hd in (("n", ns, ["name", "x", "y"]), ("l", ls, ["name", "start", "end", "length", "u", "kappa", "merge_priority"]),
                             ("d", ds, ["orig", "dest", "start_t", "end_t", "q"])):
            with open(os.path.join(d, fn + ".csv"), "w", newline="") as h:
                w = csv.writer(h)
                if head:
                    w.writerow(hd)
                w.writerows(rows)
        W1, W2 = rec.new_world(sc, eng), rec.new_world(sc, eng)
        p = [os.path.join(d, x + ".csv") for x in "nld"]
        if rng.random() < .5:
            W1.load_scenario_from_csv(*p)
        else:
            W1.generate_Nodes_from_csv(p[0])
            W1.generate_Links_from_csv(p[1])
            W1.generate_demand_from_csv(p[2])
        for r in ns:
            W2.addNode(r[0], float(r[1]), float(r[2]))
        for r in ls:
            W2.addLink(r[0], r[1], r[2], float(r[3]), free_flow_speed=float(r[4]), jam_density=float(r[5]), merge_priority=float(r[6]))
        D = []
        for r in ds:
            kv = dict(flow=float(r[4]))
            if len(r) > 5:
                kv["volume"] = float(r[5])
            D.append(dict(kind="adddemand", rand=False, veh=call(W2, ("adddemand", [("node", r[0], False), ("node", r[1], False), float(r[2]), float(r[3])], kv))))
        s2 = snap(W2)
        c["base"] = dict(N=s2["N"], L=s2["L"], D=D)
        c["rows"] = dict(N=[dict(name=r[0], x=repr(float(r[1])), y=repr(float(r[2]))) for r in ns],
                         L=[dict(name=r[0], start=r[1], end=r[2], length=repr(float(r[3])), u=repr(float(r[4])), kappa=repr(float(r[5])),
                                 merge_priority=repr(float(r[6])), lanes=1) for r in ls])
        c["drew"] = [0, 0]
        c["snap"] = [snap(W1), s2]
        c["hist"] = [prints(W1, sc, eng), prints(W2, sc, eng)]
    except uxenv.MachineryError:
        raise
    except Exception as e:
        import traceback
        return None, "csv: %s: %s %s" % (type(e).__name__, str(e)[:200], traceback.format_exc()[-500:])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return c, ""


FAMS = [(job, "py", 90, {}), (job, "py", 30, dict(exact=False)), (csv_job, "py", 40, {}), (csv_job, "cpp", 50, {})]


def run(ctx):
    r = tlc.run("UXScenarioModel")
    ctx.add_tlc(r)
    ctx.note("model_states", r.distinct)
    for fi, (fn, eng, cnt, kw) in enumerate(FAMS):
        uxenv.load(cpp=eng == "cpp")
        its = []
        for k in range(ctx.n(cnt * 3, cnt * 12)):
            seed = (ctx.seed * 31 + fi) * 10007 + k
            its.append((eng, seed, kw, "%s/%s/%d" % (fn.__name__, eng, seed)))
        cases = []
        for it, r in zip(its, pool.run(fn, its, per_item=120, total=1500)):
            if isinstance(r, pool.Died):
                ctx.viol("crash", it[3], r.why)
            elif r[1]:
                ctx.viol("crash", it[3], r[1])
            else:
                cases.append(r[0])
                ctx.note("worlds", r[0]["nw"])
                ctx.note("vehicles", sum(len(s["V"]) for s in r[0]["snap"]))
        for cid, cl in judge.judge(ctx, "UXScenarioTrace", cases, batch=100):
            ctx.viol(cl, cid, "", dict(case=cid))
        if cases:
            ctx.sample(dict(case=cases[0]["id"], program=[(q["op"], q["w"], q["f"], q["net"], q["dem"]) for q in cases[0]["Q"]],
                            demand=[(e["kind"], len(e["veh"])) for e in cases[0]["base"]["D"]]))
