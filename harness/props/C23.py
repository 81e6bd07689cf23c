"""What links and vehicles answer when asked, at pauses, inside user functions and at the end (spec/UXQuery.tla)."""
import json, random, warnings, zlib
import numpy as np
import uxenv, pool, judge, scen, rec, tlc
from scen import dt_of


def num(x, k=1.0, lim=2000000000):
    """scaled and rounded, out of the way of the 32-bit arithmetic of TLC"""
    z = float(x) * k
    if z != z:
        return -lim
    return int(round(max(-lim, min(lim, z))))


def fingerprint(W, sc, vobj, eng):
    """everything that happened"""
    c = 0

    def add(a):
        nonlocal c
        c = zlib.crc32(np.asarray([float(z) for z in a], dtype=float).tobytes(), c)
    for l in sc["L"]:
        o = W.get_link(l["name"])
        for a in (o.cum_arrival, o.cum_departure, o.traveltime_instant, o.traveltime_actual):
            add(a)
    for i in sorted(vobj):
        v = vobj[i]
        add(v.log_t)
        add(v.log_x)
        add(v.log_v)
        add([v.travel_time, v.arrival_time, v.distance_traveled])
        c = zlib.crc32(repr([getattr(z, "name", z) for _, z in v.log_t_link]).encode(), c)
    for n in sc["N"]:
        add(W.get_node(n["name"]).signal_log)
    return c & 0x7fffffff


class Asker:
    def __init__(self, W, sc, eng, vobj, rng):
        self.W, self.sc, self.eng, self.vobj, self.rng = W, sc, eng, vobj, rng
        self.dt = dt_of(sc)
        self.name = [l["name"] for l in sc["L"]]
        self.id = {n: k + 1 for k, n in enumerate(self.name)}
        self.node = {n["name"]: n for n in sc["N"]}
        self.S = []
        self.paused = False
        self.kept = []
        self.tov = {}

    def quarter(self, lo, hi):
        return self.rng.randint(lo, hi)

    def sec(self, q):
        return (q // 4) * self.dt + (q % 4) * self.dt / 4

    def link(self, l, j, n_ask):
        rng = self.rng
        A, D, TI, TA = l.cum_arrival, l.cum_departure, l.traveltime_instant, l.traveltime_actual
        if self.eng == "cpp":
            self.kept.append((A, np.array(A), TI, np.array(TI)))
        if not len(A) or not len(TI):
            return None
        n = int(self.W.T) if self.paused else len(A)
        out = dict(len=num(l.length, 10), u=num(l.u, 1000), A=[num(z) for z in A][:n], D=[num(z) for z in D][:n], TI=[num(z, 1000) for z in TI][:n], TA=[num(z, 1000) for z in TA], ask=[])
        # who entered when (rebuilt from the vehicle logs by the C++ engine)
        out["e"] = int(self.paused and (self.eng == "py" or self.sc["W"]["logint"] == 1))
        out["E"] = [[4 * int(round(float(t) / self.dt)), int(any(abs(float(a) - float(t)) < 1e-6 and z is l for a, z in v.log_t_link))]
                    for t, v in l.vehicles_enter_log.items()] if out["e"] else []
        for _ in range(n_ask):
            k = rng.choice(["arr", "dep", "num", "density", "itt", "att", "speed", "flow", "inflow", "avgtt", "avgtt", "toll"])
            q = self.quarter(-6, 4 * n + 10) if rng.random() < .3 else self.quarter(0, 4 * n - 1)
            t = self.sec(q)
            p = 0
            if k == "arr":
                r = num(l.arrival_count(t))
            elif k == "dep":
                r = num(l.departure_count(t))
            elif k == "num":
                r = num(l.num_vehicles_t(t))
            elif k == "density":
                r = num(l.average_density(t), 1e5, 2e9 / out["len"])
            elif k == "itt":
                r = num(l.instant_travel_time(t), 1000)
            elif k == "att":
                r = num(l.actual_travel_time(t), 1000)
            elif k in ("speed", "flow"):
                x = TI[min(max(q // 4, 0), n - 1)] * 10
                r = num(l.average_speed(t), 1000, 2e9 / x) if k == "speed" else num(l.average_flow(t), 1e5, 2e9 / x)
            elif k in ("inflow", "avgtt"):
                p = q + rng.choice([1, 2, 4, 7, 12, 40, 100])
                if k == "inflow":
                    r = num(l.inflow_between(t, self.sec(p)), 1e5, 2e9 / ((p - q) * self.dt * 10))
                else:
                    r = num(l.average_travel_time_between(t, self.sec(p)), 1000, 1000000)
            else:
                L = self.sc["L"][j]
                r = num(l.get_toll(t), 1000)
                p = num(self.tov.get(j, scen.toll_at(L, t)), 1000)
            out["ask"].append(dict(k=k, q=q, p=p, r=r))
        return out

    def now(self, l):
        vs = [v for v in self.vobj.values() if v.state == "run" and v.link is l]
        speed, density, flow, n, queue = l.speed, l.density, l.flow, l.num_vehicles, l.num_vehicles_queue
        return dict(v=[num(v.v, 1000) for v in vs], slow=[int(v.v < l.u) for v in vs], u=num(l.u, 1000), len=num(l.length, 10),
                    num=num(n), queue=num(queue), speed=num(speed, 1000, 2e9 / (len(vs) + 1)), density=num(density, 1e5, 2e9 / num(l.length, 10)), flow=num(flow, 1e5, 1.9e9 / num(l.length, 1)))

    def snap(self, links=2, asks=10, vehs=4, logs=True, paused=False):
        rng, W = self.rng, self.W
        s = dict(L=[], now=[], pos=[], W=[])
        self.paused = paused
        L = list(enumerate(W.get_link(n) for n in self.name))
        for j, l in rng.sample(L, min(links, len(L))):
            r = self.link(l, j, asks)
            if r:
                s["L"].append(r)
        for j, l in L:
            if links > 3 or rng.random() < .5:
                s["now"].append(self.now(l))
        V = [v for k, v in sorted(self.vobj.items())]
        xy = lambda n: [int(self.node[n.name]["x"]), int(self.node[n.name]["y"])]
        for v in rng.sample(V, min(vehs, len(V))):
            l = v.link if v.state == "run" else None
            p = v.get_xy_coords()
            s["pos"].append(dict(l=self.id[l.name] if l is not None else 0, r=[num(p[0], 10), num(p[1], 10)], x=num(v.x, 10) if l is not None else 0,
                                 s=xy(l.start_node) if l is not None else [0, 0], e=xy(l.end_node) if l is not None else [0, 0]))
        if logs:
            for v in rng.sample(V, min(vehs, len(V))):
                w = dict(g=[], l=[], x=[], pos=[], rt=[], h=[])
                lk = lambda z: 0 if isinstance(z, (int, np.integer)) else self.id[getattr(z, "name", z)]
                w["g"] = [4 * int(round(float(t) / self.dt)) for t in v.log_t]
                w["l"] = [lk(z) for z in v.log_link]
                w["x"] = [num(z, 10) for z in v.log_x]
                hi = 4 * int(W.T) + 8
                for _ in range(4):
                    q = rng.randint(0, hi) if rng.random() < .9 else rng.choice([-5, -9])
                    p = v.get_xy_coords((q // 4) * self.dt if q % 4 == 0 else self.sec(q))
                    w["pos"].append(dict(q=q, r=[num(p[0], 10), num(p[1], 10)]))
                for t, z in v.log_t_link:
                    w["h"].append([num(t, 1000), {"home": 0, "end": -1}.get(z, -2) if isinstance(z, str) else self.id[z.name]])
                for _ in range(2):
                    arr, dep = rng.random() < .5, rng.random() < .5
                    r, ts = v.traveled_route(include_arrival_time=arr, include_departure_time=dep) if rng.random() < .7 or not (arr and not dep) else v.traveled_route()
                    if arr and not w["h"]:
                        continue
                    w["rt"].append(dict(arr=int(arr), dep=int(dep), route=[self.id[l.name] for l in r], ts=[num(t, 1000) for t in ts]))
                s["W"].append(w)
        self.S.append(s)


def execute(sc, eng, ask, rng):
    W = None
    uf = {}
    hold = {}
    if ask and eng == "py":     # user functions may look at anything, at any moment of a time step

        def look(_=None):
            if "A" in hold and rng.random() < hold["p"]:
                hold["A"].snap(links=1, asks=3, vehs=2, logs=rng.random() < .2)
        uf = dict(user_function=look)
    over = dict(uf) if uf and rng.random() < .5 else {}
    W = rec.new_world(sc, eng, **over)
    for n in sc["N"]:
        rec.add_node_to(W, n, **(uf if uf and rng.random() < .3 else {}))
    for l in sc["L"]:
        rec.add_link_to(W, sc, l, **(uf if uf and rng.random() < .3 else {}))
    vobj = {}
    for i, v in enumerate(sc["V"]):
        if v["add"] < 0:
            vobj[i] = rec.add_veh_to(W, sc, v, eng, **(uf if uf and rng.random() < .1 else {}))
    A = None
    N = sc["W"]["steps"]
    logs = not (eng == "cpp" and sc["W"]["logint"] == -1)
    if ask:
        A = Asker(W, sc, eng, vobj, rng)
        stops = set(rng.sample(range(2, N), 4))
        hold["p"] = 12 / (N * (2 + len(sc["N"]) * .3 + len(sc["L"]) * .3 + len(sc["V"]) * .1))
        if rng.random() < .5:
            hold["A"] = A
    ev = {e["at"] for e in sc["E"]}
    cut = sorted(ev | (stops if ask else set()) | {N})
    T = 0
    for t in cut:
        if t > T:
            W.exec_simulation(duration_t2=(t - T + .25) * W.DELTAT)
            T = t
        if t < N:
            if ask and t in stops and rng.random() < .5:
                A.snap(logs=logs, links=3, paused=True)
            for e in sc["E"]:
                if e["at"] == t:
                    rec.apply_event(W, sc, e, vobj, eng)
                    if ask and e["k"] == "toll":
                        A.tov[e["l"]] = e["val"]
            if ask and (t in stops or rng.random() < .5):
                A.snap(logs=logs, links=3, paused=True)
    if ask:
        hold.clear()
        A.snap(links=6, asks=25, vehs=8, logs=logs, paused=True)
    return W, vobj, A


def job(item):
    eng, seed, kw, tid = item
    rng = random.Random("c23/" + tid)
    warnings.simplefilter("ignore")
    try:
        sc = scen.generate(seed, engine=eng, **kw)
        W, vobj, A = execute(sc, eng, True, rng)
        W2, vobj2, _ = execute(sc, eng, False, rng)
        return dict(id=tid, dn=int(W.DELTAN), dt01=int(round(dt_of(sc) * 10)), len=[num(l["len"], 10) for l in sc["L"]],
                    xy=[[[int(sc["N"][l[a]]["x"]), int(sc["N"][l[a]]["y"])] for a in ("s", "e")] for l in sc["L"]],
                    S=A.S, kept=int(all(np.array_equal(a, b) and np.array_equal(c, d) for a, b, c, d in A.kept)),
                    **{"with": fingerprint(W, sc, vobj, eng), "without": fingerprint(W2, sc, vobj2, eng)}), ""
    except uxenv.MachineryError:
        raise
    except Exception as e:
        import traceback
        return None, "%s: %s %s" % (type(e).__name__, str(e)[:200], traceback.format_exc()[-700:])


FAMS = [("py", 30, {}), ("cpp", 30, {}), ("py", 20, dict(events=True)), ("cpp", 20, dict(events=True)), ("py", 15, dict(exact=False)), ("cpp", 15, dict(exact=False)),
        ("py", 10, dict(focus="spill")), ("cpp", 10, dict(focus="spill")), ("py", 6, dict(logint=3)), ("py", 3, dict(logint=-1)), ("cpp", 5, dict(logint=-1))]


def run(ctx):
    r = tlc.run("UXQueryModel", cfg="UXQueryModel5" if ctx.tier == "thorough" else "UXQueryModel")
    ctx.add_tlc(r)
    ctx.note("model_states", r.distinct)
    for eng in ("py", "cpp"):
        uxenv.load(cpp=eng == "cpp")
        its = []
        for fi, (e, cnt, kw) in enumerate(FAMS):
            if e == eng:
                for k in range(ctx.n(cnt * 3, cnt * 14)):
                    seed = (ctx.seed * 37 + fi) * 10007 + k
                    its.append((eng, seed, kw, "%s/%d/%s" % (eng, seed, json.dumps(kw, sort_keys=True))))
        cases = []
        for it, r in zip(its, pool.run(job, its, per_item=120, total=1500)):
            if isinstance(r, pool.Died):
                ctx.viol("crash", it[3], r.why)
            elif r[1]:
                ctx.viol("crash", it[3], r[1])
            else:
                cases.append(r[0])
                ctx.note("snapshots", len(r[0]["S"]))
                ctx.note("answers", sum(sum(len(l["ask"]) for l in s["L"]) + 5 * len(s["now"]) + len(s["pos"]) + sum(len(w["pos"]) + len(w["rt"]) for w in s["W"]) for s in r[0]["S"]))
        for cid, cl in judge.judge(ctx, "UXQueryTrace", cases, batch=40):
            ctx.viol(cl, cid, "", dict(case=cid))
        if cases:
            s = cases[0]["S"][-1]
            ctx.sample(dict(case=cases[0]["id"], snapshot=dict(now=s["now"][:1], ask=[l["ask"][:4] for l in s["L"][:1]], pos=s["pos"][:2])))
