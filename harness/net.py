"""Construction calls on a world, their outcomes and what is seen afterwards."""
import uxenv

FAR = 10 ** 8


def r10(x):
    return int(round(float(x) * 10))


class Builder:
    """applies plan entries (plain dicts) to a world and records them for UXNet"""

    def __init__(self, W, dt):
        self.W, self.dt = W, dt
        self.rec = []

    def snap(self):
        W = self.W
        ix = {id(l): k + 1 for k, l in enumerate(W.LINKS)}
        io = [[[ix.get(id(l), 0) for l in n.inlinks.values()], [ix.get(id(l), 0) for l in n.outlinks.values()]] for n in W.NODES]
        look = list(W.NODES_NAME_DICT) == [n.name for n in W.NODES] and list(W.LINKS_NAME_DICT) == [l.name for l in W.LINKS]
        look = look and all(W.get_node(n.name) is n and W.get_node(n) is n and n.id == k for k, n in enumerate(W.NODES))
        look = look and all(W.get_link(l.name) is l and W.get_link(l) is l and l.id == k for k, l in enumerate(W.LINKS))
        look = look and all(v.name == k for k, v in W.VEHICLES.items())
        look = look and all(list(n.inlinks) == [l.name for l in n.inlinks.values()] and list(n.outlinks) == [l.name for l in n.outlinks.values()] for n in W.NODES)
        return dict(n=[n.name for n in W.NODES], l=[l.name for l in W.LINKS], v=[str(v.name) for v in W.VEHICLES.values()], io=io, look=int(look))

    def call(self, q):
        """q: spec fields, plus 'kw'/'args' used for the real call"""
        W = self.W
        q = dict(q)
        kw, args = q.pop("kw", {}), q.pop("args", [])
        n0 = len(W.VEHICLES)
        ok, name, err = 1, "", ""
        q["names"] = []
        try:
            k = q["k"]
            if k == "node":
                name = W.addNode(*args, **kw).name
            elif k == "link":
                name = W.addLink(*args, **kw).name
            elif k == "veh":
                name = W.addVehicle(*args, **kw).name
            elif k == "demand":
                W.adddemand(*args, **kw)
                q["names"] = [v.name for v in list(W.VEHICLES.values())[n0:]]
            elif k == "getnode":
                o = W.get_node(*args)
                name = o.name if o is not None else 1 / 0
            elif k == "getlink":
                o = W.get_link(*args)
                name = o.name if o is not None else 1 / 0
            elif k == "route":
                name = "route"
                r = W.defRoute(*args)
                assert [l.name for l in r] == q["path"] and len(r) == len(q["path"])
            elif k == "enforce":
                name = "enforced"
                args[0](W).enforce_route(args[1])
        except uxenv.MachineryError:
            raise
        except Exception as e:
            ok, name, err = 0, "", "%s: %s" % (type(e).__name__, str(e)[:80])
        q.update(ok=ok, name=name, err=err, after=self.snap())
        self.rec.append(q)
        return ok


def final(W, P):
    ni = {id(n): k + 1 for k, n in enumerate(W.NODES)}

    def num(x, k):
        return FAR if x is None else int(round(float(x) * k))
    N = [dict(name=n.name, x=r10(n.x), y=r10(n.y), sig=[r10(z) for z in n.signal], off=r10(n.signal_offset),
              fc=-1 if n.flow_capacity is None or n.flow_capacity < 0 else num(n.flow_capacity, 1000),
              fc4=-10 if n.flow_capacity is None or n.flow_capacity < 0 else num(n.flow_capacity, 10000),
              lanes=0 if n.number_of_lanes is None else max(0, int(n.number_of_lanes)), attr=num(n.attribute or 0, 1)) for n in W.NODES]
    L = [dict(name=l.name, s=ni.get(id(l.start_node), 0), e=ni.get(id(l.end_node), 0), len=r10(l.length), u=r10(l.u), kappa=num(l.kappa, 1000),
              lanes=int(l.number_of_lanes), prio=r10(l.merge_priority), sg=list(l.signal_group), attr=num(l.attribute or 0, 1),
              cap=num(l.capacity, 10000), qstar=num(l.q_star, 10000), kstar=num(l.k_star, 1e6), w=num(l.w, 100), delta=num(l.delta, 1000),
              dpl=num(l.delta_per_lane, 1000), cout=num(l.capacity_out, 10000), cin=num(l.capacity_in, 10000), dx=r10(l.edie_dx)) for l in W.LINKS]
    V = [dict(name=str(v.name), o=ni.get(id(v.orig), 0), d=ni.get(id(v.dest), 0), dep=int(v.departure_time), attr=num(v.attribute or 0, 1)) for v in W.VEHICLES.values()]
    return dict(N=N, L=L, V=V)


# ------------------------------------------------------------- random calls

def q_node(rng, asked, rename=False):
    sig = rng.choice([[0], [0], [0], [30, 60], [10, 20.5, 5], [5, 5]])
    off, old = rng.choice([0, 0, 5, -12.5, 300]), -1
    kw = dict(signal=list(sig))
    if rng.random() < .2 and sig != [0]:
        old = rng.choice([0, 3, 20])
        kw["signal_offset_old"] = old
    if off:
        kw["signal_offset"] = off
    fc = rng.choice([None, None, .3, .8, .9, 1.7, 2.5])
    lanes = rng.choice([None, None, 1, 3]) if fc is not None else None
    if fc is not None:
        kw["flow_capacity"] = fc
    if lanes:
        kw["number_of_lanes"] = lanes
    at = rng.choice([0, 0, 7])
    if at:
        kw["attribute"] = at
    if rename:
        kw["auto_rename"] = True
    x, y = rng.randint(-50, 50) * 100, rng.randint(0, 5000) / 10
    return dict(k="node", asked=asked, rename=rename, x=r10(x), y=r10(y), sig=[r10(z) for z in sig], off=r10(off), oldoff=r10(old) if old != -1 else -1,
                fc=-1 if fc is None else int(round(fc * 1000)), lanes=lanes or 0, attr=at, args=[asked, x, y], kw=kw)


def q_link(rng, asked, s, e, spell, rename=False, rt=1, dt=5):
    u = rng.choice([20, 10, 5, 13.5, 30])
    lanes = rng.choice([1, 1, 2, 3])
    kw = {}
    kap, kpl = rng.choice([.2, .2, .14, .3]), -1
    if rng.random() < .3:
        kpl = rng.choice([.1, .15, .2])
        kw["jam_density_per_lane"] = kpl
    if kap != .2 and kpl == -1:
        kw["jam_density"] = kap
    elif kpl != -1:
        kap = .2
    if u != 20:
        kw["free_flow_speed"] = u
    if lanes != 1:
        kw["number_of_lanes"] = lanes
    cout, cin = rng.choice([None, None, .25, .8]), rng.choice([None, None, .5, 0])
    if cout is not None:
        kw["capacity_out"] = cout
    if cin is not None:
        kw["capacity_in"] = cin
    prio = rng.choice([1, 1, 2, .5, 0])
    if prio != 1:
        kw["merge_priority"] = prio
    sg = rng.choice([None, 0, 1, [0, 1]])
    if sg is not None:
        kw["signal_group"] = sg
    dx = rng.choice([None, None, None, 50])
    if dx:
        kw["eular_dx"] = dx
    at = rng.choice([0, 0, 9])
    if at:
        kw["attribute"] = at
    if rename:
        kw["auto_rename"] = True
    length = rng.choice([500, 1000, 777.7, 250])
    return dict(k="link", asked=asked if asked is not None else (s + "-" + e), rename=rename, s=s, e=e, len=r10(length), u=r10(u), kappa=int(round(kap * 1000)),
                kpl=-1 if kpl == -1 else int(round(kpl * 1000)), lanes=lanes, prio=r10(prio), sg=[0] if sg is None else [sg] if isinstance(sg, int) else sg,
                cout=-1 if cout is None else int(round(cout * 10000)), cin=-1 if cin is None else int(round(cin * 10000)),
                dx=-1 if dx is None else r10(dx), attr=at, args=[asked, spell(s), spell(e), length], kw=kw)
