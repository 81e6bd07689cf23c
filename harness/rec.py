"""Build worlds from scenarios in either engine, run them one time step at a time and
record what a user can observe after every step, as integers for the specification."""
import math
import random as _random
import numpy as np
from scen import dt_of, link_rec, toll_at, spec_cfg, m6, node_caps
import uxenv

ST = {"home": 0, "wait": 1, "run": 2, "end": 3, "abort": 4}
BIG = 300000000


class Crash(Exception):
    """the code under test raised"""


def ms(x):
    if x is None or not math.isfinite(x):
        return -1
    return int(min(BIG, round(x * 1000)))


def toll_fn(l):
    return (lambda t, l=l: toll_at(l, t)) if l["toll"] else None


def new_world(sc, engine, **over):
    ux = uxenv.load(cpp=engine == "cpp")
    W = sc["W"]
    dt = dt_of(sc)
    kw = dict(name=sc.get("name", ""), deltan=W["deltan"], reaction_time=W["rt"], duo_update_time=W["duo_time"],
              duo_update_weight=W["duo_weight"], duo_noise=W["duo_noise"], route_choice_principle=W["principle"],
              route_choice_update_gradual=W["gradual"], instantaneous_TT_timestep_interval=W["itt"],
              no_cyclic_routing=W["nocyc"], adjust_node_capacity=W["adjust"], random_seed=W["seed"],
              print_mode=0, save_mode=0, show_mode=0, show_progress=0, tmax=round((W["steps"] + (0.5 if W["seed"] % 2 else 0)) * dt, 6),
              vehicle_logging_timestep_interval=W["logint"], hard_deterministic_mode=W["det"])
    kw.update(over)
    if engine == "cpp":
        return ux.World(cpp=True, **kw)
    return ux.World(**kw)


def add_node_to(Wd, n, **kw):
    return Wd.addNode(n["name"], n["x"], n["y"], signal=list(n["sig"]), signal_offset=n["off"],
                      flow_capacity=n["fc"], number_of_lanes=n["lanes"], **kw)


def add_link_to(Wd, sc, l, **kw):
    return Wd.addLink(l["name"], sc["N"][l["s"]]["name"], sc["N"][l["e"]]["name"], l["len"], free_flow_speed=l["u"],
                      jam_density=l["kappa"], number_of_lanes=l["lanes"], merge_priority=l["prio"],
                      signal_group=list(l["sg"]), capacity_out=l["cout"], capacity_in=l["cin"],
                      congestion_pricing=toll_fn(l), **kw)


def add_veh_to(Wd, sc, v, engine, **kw):
    o, d = sc["N"][v["o"]]["name"], sc["N"][v["d"]]["name"]
    ln = [sc["L"][i]["name"] for i in range(len(sc["L"]))]
    if v["pre"]:
        kw["links_prefer"] = [ln[i] for i in v["pre"]]
    if v["avo"]:
        kw["links_avoid"] = [ln[i] for i in v["avo"]]
    if v["ab"] == 0:
        kw["trip_abort"] = 0
    if sc["exact"] or v["dep"] % 2:        # in seconds, as a user would write them
        veh = Wd.addVehicle(o, d, round(v["dep"] * dt_of(sc), 6), **kw)
    else:
        veh = Wd.addVehicle(o, d, v["dep"], departure_time_is_time_step=1, **kw)
    if v["spec"]:
        veh.enforce_route([ln[i] for i in v["spec"]])
    return veh


def build(sc, engine, **over):
    Wd = new_world(sc, engine, **over)
    for n in sc["N"]:
        add_node_to(Wd, n)
    for l in sc["L"]:
        add_link_to(Wd, sc, l)
    vobj = {}
    for i, v in enumerate(sc["V"]):
        if v["add"] < 0:
            vobj[i] = add_veh_to(Wd, sc, v, engine)
    return Wd, vobj


def apply_event(Wd, sc, e, vobj, engine):
    """one user intervention, through the public API"""
    ln = [l["name"] for l in sc["L"]]
    k = e["k"]
    if k == "u":
        Wd.get_link(ln[e["l"]]).change_free_flow_speed(e["val"])
    elif k == "kappa":
        Wd.get_link(ln[e["l"]]).change_jam_density(e["val"])
    elif k == "cout":
        Wd.get_link(ln[e["l"]]).capacity_out = e["val"]
    elif k == "cin":
        Wd.get_link(ln[e["l"]]).capacity_in = e["val"]
    elif k == "sig":
        n = Wd.get_node(sc["N"][e["n"]]["name"])
        if e.get("attr"):
            n.signal = list(e["sig"])
        else:
            g = e.get("groups")
            n.override_signal(list(e["sig"]), reset=e["reset"], **(dict(groups=[[ln[i] for i in x] for x in g]) if g else {}))
    elif k == "prio":
        Wd.get_link(ln[e["l"]]).merge_priority = e["val"]
    elif k == "toll":
        if e["old"]:
            Wd.get_link(ln[e["l"]]).route_choice_penalty = e["val"]
        else:
            Wd.get_link(ln[e["l"]]).congestion_pricing = lambda t, v=e["val"]: v
    elif k == "fc":
        n = Wd.get_node(sc["N"][e["n"]]["name"])
        n.flow_capacity = e["val"]
    elif k == "route":
        vobj[e["v"]].enforce_route([ln[i] for i in e["s"]])
    elif k == "prefer":
        vobj[e["v"]].set_links_prefer([ln[i] for i in e["s"]])
    elif k == "avoid":
        vobj[e["v"]].set_links_avoid([ln[i] for i in e["s"]])
    elif k == "addveh":
        vobj[e["v"]] = add_veh_to(Wd, sc, sc["V"][e["v"]], engine)


def link_quantities(l):
    """what follows from speed, density, lanes and reaction time, as the link reports it"""
    num = lambda x, k: min(10**9, int(round(float(x) * k)))
    return dict(cap=num(l.capacity, 10000), qstar=num(l.q_star, 10000), kstar=num(l.k_star, 1e6), w=num(l.w, 100),
                delta=num(l.delta, 1000), dpl=num(l.delta_per_lane, 1000))


def quantities(Wd, sc, i):
    l = Wd.get_link(sc["L"][i]["name"])
    f = link_quantities(l)
    num = lambda x, k: min(10**9, int(round(float(x) * k)))
    f.update(u=num(l.u, 10), ff=num(l.free_flow_speed, 10), kappa=num(l.kappa, 1000), jd=num(l.jam_density, 1000))
    return dict(k="derived", l=i + 1, f=f, rt10=int(round(sc["W"]["rt"] * 10)))


class EvTracker:
    """what the specification is told about the interventions"""

    def __init__(self, sc):
        self.sc = sc
        self.cur = [dict(u=l["u"], kappa=l["kappa"], cout=l["cout"], cin=l["cin"]) for l in sc["L"]]
        self.sg = [dict(sg=list(l["sg"]), prio=int(round(l["prio"] * 100))) for l in sc["L"]]
        self.tov = {}
        self.tolls = [toll_at(l, 0) for l in sc["L"]]

    def at(self, T):
        sc = self.sc
        dt = dt_of(sc)
        out = []
        for i, l in enumerate(sc["L"]):
            for e in sc["E"]:
                if e["at"] == T and e["k"] == "toll" and e["l"] == i:
                    self.tov[i] = e["val"]
            v = self.tov.get(i, toll_at(l, T * dt))
            if v != self.tolls[i]:
                self.tolls[i] = v
                out.append(dict(k="toll", l=i + 1, toll=int(round(v * 1000))))
        for e in sc["E"]:
            if e["at"] != T:
                continue
            k = e["k"]
            if k in ("u", "kappa", "cout", "cin"):
                c = self.cur[e["l"]]
                c[k] = e["val"]
                p = link_rec(sc, sc["L"][e["l"]], vgap=any(x["k"] == "kappa" and x["l"] == e["l"] for x in sc["E"]), **c)
                p.update(self.sg[e["l"]])
                out.append(dict(k="link", l=e["l"] + 1, p=p))
            elif k == "sig":
                out.append(dict(k="sig", n=e["n"] + 1, sig=[int(round(x * 1000)) for x in e["sig"]], reset=bool(e["reset"])))
                for i in sorted({i for x in e.get("groups") or [] for i in x}):
                    self.sg[i]["sg"] = [j for j, x in enumerate(e["groups"]) if i in x]
                    out.append(dict(k="grp", l=i + 1, sg=self.sg[i]["sg"]))
            elif k == "prio":
                self.sg[e["l"]]["prio"] = int(round(e["val"] * 100))
                out.append(dict(k="prio", l=e["l"] + 1, prio=self.sg[e["l"]]["prio"]))
            elif k == "fc":
                out.append(dict(k="node", n=e["n"] + 1, fc=m6(e["val"] * dt)))
            elif k == "route":
                out.append(dict(k="route", v=e["v"] + 1, spec=[i + 1 for i in e["s"]]))
            elif k in ("prefer", "avoid"):
                out.append(dict(k=k, v=e["v"] + 1, s=[i + 1 for i in e["s"]]))
        return out


def xmm(x, length):
    a = int(round(x * 1000))
    L = int(round(length * 1000))
    if x < length and a >= L:
        a = L - 1
    return max(-BIG, min(BIG, a))


class Observer:
    """reads the state of a world after a step"""

    def __init__(self, Wd, sc, engine, vobj):
        self.W, self.sc, self.engine, self.vobj = Wd, sc, engine, vobj
        self.cfg = spec_cfg(sc)
        self.q = [[] for _ in sc["L"]]
        self.gq = [[] for _ in sc["N"]]
        self.st_old = {}
        self.lanes_old = {}
        self.idx = None
        self.links = [Wd.get_link(l["name"]) for l in sc["L"]]
        self.nodes = [Wd.get_node(n["name"]) for n in sc["N"]]

    def observe(self, T, ev):
        sc, Wd = self.sc, self.W
        nv, nl, nn = len(sc["V"]), len(sc["L"]), len(sc["N"])
        cpp = self.engine == "cpp"
        st, ln, x, v, lane, nx = [0] * nv, [0] * nv, [0] * nv, [0] * nv, [0] * nv, [0] * nv
        lid = {id(l): i + 1 for i, l in enumerate(self.links)}
        for i, o in self.vobj.items():
            st[i] = ST.get(o.state, 9)
            lk = o.link
            ln[i] = lid.get(id(lk), 0) if lk is not None else 0
            if st[i] == 2 and ln[i]:
                L = sc["L"][ln[i] - 1]["len"]
                x[i] = xmm(float(o.x), L)
                v[i] = max(-BIG, min(BIG, int(round(float(o.v) * 1000))))
                lane[i] = int(o.lane)
                if x[i] == int(round(L * 1000)):
                    if cpp:
                        r = o._cpp_vehicle.route_next_link
                        nx[i] = r.id + 1 if r is not None else 0
                    else:
                        r = getattr(o, "route_next_link", None)
                        nx[i] = lid.get(id(r), 0) if r is not None else 0
        if cpp:
            q, gq = self.cpp_queues(st, ln, lane)
        else:
            vid = {id(o): i + 1 for i, o in self.vobj.items()}
            q = [[vid.get(id(u), 0) for u in l.vehicles] for l in self.links]
            gq = [[vid.get(id(u), 0) for u in n.generation_queue] for n in self.nodes]
        o = dict(T=T, ev=ev, st=st, ln=ln, x=x, v=v, lane=lane, nx=nx, q=q, gq=gq,
                 ca=[int(round(float(l.cum_arrival[T]))) if len(l.cum_arrival) > T else -1 for l in self.links],
                 cd=[int(round(float(l.cum_departure[T]))) if len(l.cum_departure) > T else -1 for l in self.links],
                 ph=[int(n.signal_phase) for n in self.nodes],
                 sgt=[ms(float(n.signal_t)) for n in self.nodes],
                 tti=[ms(float(l.traveltime_instant[T])) if len(l.traveltime_instant) > T else -1 for l in self.links])
        num = {ob.name: i + 1 for i, ob in self.vobj.items()}
        o["run"] = sorted(num.get(k, 0) for k in Wd.VEHICLES_RUNNING)
        o["liv"] = sorted(num.get(k, 0) for k in Wd.VEHICLES_LIVING)
        c = self.cfg
        srch = T % c["rint"] == 0
        if srch:
            if cpp:
                d, nxt = Wd._cpp_world.route_dist, Wd._cpp_world.route_next
            else:
                d, nxt = Wd.ROUTECHOICE.dist, Wd.ROUTECHOICE.next
            o["dist"] = [[(lambda z: -1 if not math.isfinite(z) or z > 1e14 else min(900000000, int(round(z * 1000))))(float(d[i][j]))
                          for j in range(nn)] for i in range(nn)]
            o["nxt"] = [[(int(nxt[i][j]) + 1 if 0 <= nxt[i][j] < nn and i != j and o["dist"][i][j] >= 0 else 0) for j in range(nn)]
                        for i in range(nn)]
        if srch or c["grad"]:
            p = Wd._cpp_world.route_preference if cpp else Wd.ROUTECHOICE.route_pref
            o["pref"] = [[int(round(float(p[k][l]) * 10000)) for l in range(nl)] for k in range(nn)]
        return o

    def cpp_queues(self, st, ln, lane):
        """the order of vehicles on links is not exposed by the C++ engine: rebuild it from the
        previous order and the cyclic lane assignment of the entrants"""
        sc = self.sc
        q2 = []
        for l in range(len(sc["L"])):
            old = self.q[l]
            stay = [i for i in old if st[i - 1] == 2 and ln[i - 1] == l + 1]
            new = [i + 1 for i in range(len(st)) if st[i] == 2 and ln[i] == l + 1 and i + 1 not in old]
            # a vehicle that left and re-entered within one step cannot happen
            lanes = sc["L"][l]["lanes"]
            if len(new) > 1:
                byl = {}
                for i in new:
                    byl.setdefault(lane[i - 1], []).append(i)
                start = None
                if len(byl) < lanes:
                    ss = [a for a in byl if (a - 1) % lanes not in byl]
                    start = ss[0] if ss else 0
                else:
                    if old and old[-1] in stay:
                        start = (self.lanes_old[old[-1]] + 1) % lanes
                    elif not old:
                        start = 0
                    else:
                        # the whole previous queue has gone: before or after the entries?
                        gen = any(self.st_old.get(i, 0) == 1 for i in new)
                        last = old[-1]
                        ended = st[last - 1] in (3, 4)
                        first = gen or sc["L"][l]["s"] < sc["L"][l]["e"] or ended
                        start = (self.lanes_old[last] + 1) % lanes if first else 0
                new.sort(key=lambda i: ((lane[i - 1] - start) % lanes, 0 if self.st_old.get(i, 0) == 1 else 1, i))
            q2.append(stay + new)
        gq2 = []
        for n in range(len(sc["N"])):
            stay = [i for i in self.gq[n] if st[i - 1] == 1]
            new = [i + 1 for i in range(len(st)) if st[i] == 1 and sc["V"][i]["o"] == n and i + 1 not in self.gq[n]]
            gq2.append(stay + sorted(new))
        self.q, self.gq = q2, gq2
        self.st_old = {i + 1: s for i, s in enumerate(st)}
        self.lanes_old = {i + 1: s for i, s in enumerate(lane)}
        return q2, gq2


def collect_logs(sc, vobj, engine, steps):
    """per-step log entries of every vehicle; None if something is not readable"""
    dt = dt_of(sc)
    nv = len(sc["V"])
    lg = [[[] for _ in range(nv)] for _ in range(steps)]
    names = {l["name"]: i + 1 for i, l in enumerate(sc["L"])}
    for i, o in vobj.items():
        t, s, l, x, v, la = o.log_t, o.log_state, o.log_link, o.log_x, o.log_v, o.log_lane
        for k in range(len(t)):
            T = int(round(float(t[k]) / dt))
            if abs(T * dt - float(t[k])) > 1e-6 or not 0 <= T < steps:
                T = max(0, min(steps - 1, T))
                lg[T][i].append([99, 0, -1, -1, -1])
                continue
            link = l[k]
            li = 0 if isinstance(link, (int, np.integer)) else names.get(getattr(link, "name", link), 0)
            run = li > 0
            lg[T][i].append([ST.get(s[k], 9), li,
                             xmm(float(x[k]), sc["L"][li - 1]["len"]) if run else int(round(float(x[k]))),
                             int(round(float(v[k]) * 1000)) if run else int(round(float(v[k]))), int(la[k])])
    return lg


def final(sc, vobj, engine, links, steps):
    dt = dt_of(sc)
    nv = len(sc["V"])
    f = dict(fst=[0] * nv, tt=[-1] * nv, arr=[-1] * nv, route=[[] for _ in range(nv)], n=steps)
    names = {l["name"]: i + 1 for i, l in enumerate(sc["L"])}
    for i, o in vobj.items():
        f["fst"][i] = ST.get(o.state, 9)
        f["tt"][i] = -1 if o.travel_time == -1 else ms(float(o.travel_time))
        f["arr"][i] = int(o.arrival_time)
        r, ts = o.traveled_route()
        lr = list(r)
        out = []
        for k, l in enumerate(lr):
            out.append([int(round(float(ts[k]) / dt)), names.get(l.name, 0)])
        if len(ts) == len(lr) + 1:
            if ts[-1] != -1:
                out.append([int(round(float(ts[-1]) / dt)), -1])
        else:
            out.append([-5, -5])
        f["route"][i] = out
    f["tta"] = [[ms(float(z)) for z in list(l.traveltime_actual)[:steps]] for l in links]
    for z in f["tta"]:
        z.extend([-1] * (steps - len(z)))
    return f


def run_trace(sc, engine, tid, hook=None, **over):
    """record one complete execution; never raises for failures of the code under test"""
    W = sc["W"]
    dt = dt_of(sc)
    logi = W["logint"]
    tr = dict(id=tid, c=spec_cfg(sc, logs=True), steps=[], fin={}, crash="")
    # the C++ engine derives the route log from the vehicle log
    tr["c"]["rlog"] = logi > 0 or engine == "py"
    vobj = {}
    np.random.seed(12345)
    _random.seed(12345)
    try:
        Wd, vobj = build(sc, engine, **over)
        ob = None
        evt = EvTracker(sc)
        for T in range(W["steps"]):
            ev = evt.at(T)
            for e in sc["E"]:
                if e["at"] == T:
                    apply_event(Wd, sc, e, vobj, engine)
            ev += [quantities(Wd, sc, i) for i in sorted({e["l"] for e in sc["E"] if e["at"] == T and e["k"] in ("u", "kappa")})]
            r = Wd.exec_simulation(duration_t2=Wd.DELTAT)
            if ob is None:
                ob = Observer(Wd, sc, engine, vobj)
            o = ob.observe(T, ev)
            o["clk"] = [int(Wd.T), int(bool(r)), int(bool(Wd.check_simulation_ongoing()))]
            tr["steps"].append(o)
            if hook:
                hook(Wd, T, vobj)
        lg = collect_logs(sc, vobj, engine, W["steps"])
        for T, o in enumerate(tr["steps"]):
            o["lg"] = lg[T] if lg else []
        tr["fin"] = final(sc, vobj, engine, ob.links, W["steps"])
        tr["world"] = Wd
        tr["vobj"] = vobj
    except uxenv.MachineryError:
        raise
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if "/uxsim/" in f.filename]
        if not where and engine == "py":
            raise
        tr["crash"] = "%s: %s at %s" % (type(e).__name__, str(e)[:300],
                                        ":".join((where[-1].filename.split("/")[-1], where[-1].name)) if where else "c++")
        tr["c"]["fin"] = False
        tr["c"]["logs"] = False
        for o in tr["steps"]:
            o.setdefault("lg", [])
    return tr
