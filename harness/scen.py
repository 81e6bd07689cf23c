"""Scenarios: plain dictionaries from which worlds are built in either engine and
from which the constants of the specification are computed.  Everything here is
derived from user-level parameters, never from objects of the code under test.

Families
  exact    all quantities are exactly representable, the specification's
           tolerances are 0 and every comparison is decided
  generic  arbitrary real parameters, small tolerances
"""
import math
import random
from fractions import Fraction

UNLIM = 400000000
STEPCAP = 500000000


def base_world(**kw):
    w = dict(deltan=5, rt=1, duo_time=600, duo_weight=0.5, duo_noise=0.01, gradual=False, itt=5,
             nocyc=False, adjust=False, det=True, seed=1, logint=1, steps=60, principle="homogeneous_DUO")
    w.update(kw)
    return w


def dt_of(sc):
    return sc["W"]["deltan"] * sc["W"]["rt"]


def new(**kw):
    return dict(W=base_world(**kw), N=[], L=[], V=[], E=[], exact=True)


def add_node(sc, sig=None, off=0, fc=None, lanes=None, x=None, y=None):
    k = len(sc["N"])
    sc["N"].append(dict(name="n%02d" % k, x=float(k % 4) * 1000 if x is None else x,
                        y=float(k // 4) * 1000 if y is None else y,
                        sig=sig or [0], off=off, fc=fc, lanes=lanes))
    return k


def add_link(sc, s, e, length, u=20, kappa=0.2, lanes=1, prio=1, sg=(0,), cout=None, cin=None, toll=None):
    k = len(sc["L"])
    sc["L"].append(dict(name="l%02d" % k, s=s, e=e, len=length, u=u, kappa=kappa, lanes=lanes, prio=prio,
                        sg=list(sg), cout=cout, cin=cin, toll=toll))
    return k


def add_veh(sc, o, d, dep, spec=None, pre=(), avo=(), ab=1, add=-1):
    k = len(sc["V"])
    sc["V"].append(dict(o=o, d=d, dep=dep, spec=list(spec or []), pre=list(pre), avo=list(avo), ab=ab, add=add))
    return k


# ---------------------------------------------------------------- to the spec

def m6(x):
    return int(round(x * 1e6))


def gap_m(sc, l, kappa=None):
    k = kappa if kappa is not None else l["kappa"]
    return sc["W"]["deltan"] * l["lanes"] / k


def unbinding(sc, u, kappa, lanes):
    """the default capacity (twice the saturation flow) can never bind"""
    w = lanes / sc["W"]["rt"] / kappa
    return u / (u + w) > 0.5005


def caps(sc, l, cout, cin, u=None, kappa=None):
    """(cout, cin) in 1e-6 platoon-vehicles per step"""
    dt = dt_of(sc)
    u = u or l["u"]
    kappa = kappa or l["kappa"]
    w = l["lanes"] / sc["W"]["rt"] / kappa
    cap = u * w * kappa / (u + w)
    unb = unbinding(sc, u, kappa, l["lanes"])

    def f(c):
        if c is None:
            return STEPCAP if unb else min(STEPCAP, m6(2 * cap * dt))
        return m6(c * dt)
    return f(cout), f(cin)


def init_caps(sc, l):
    dt = dt_of(sc)
    co, ci = caps(sc, l, l["cout"], l["cin"])
    w = l["lanes"] / sc["W"]["rt"] / l["kappa"]
    cap = l["u"] * w * l["kappa"] / (l["u"] + w)
    cor0 = 900000000 if co >= UNLIM else m6(min(800, (l["cout"] if l["cout"] is not None else 2 * cap) * dt))
    if l["cin"] is None:
        cir0 = 900000000 if ci >= UNLIM else m6(2 * cap)
    else:
        cir0 = 900000000 if ci >= UNLIM else m6(min(800, l["cin"] * dt))
    return cor0, cir0


def link_rec(sc, l, u=None, kappa=None, cout="same", cin="same", vgap=False):
    dt = dt_of(sc)
    u = u if u is not None else l["u"]
    kappa = kappa if kappa is not None else l["kappa"]
    co = l["cout"] if cout == "same" else cout
    ci = l["cin"] if cin == "same" else cin
    cor, cir = caps(sc, l, co, ci, l["u"], l["kappa"])
    cor0, cir0 = init_caps(sc, l)
    dn = sc["W"]["deltan"]
    wv = l["lanes"] / sc["W"]["rt"] / l["kappa"]
    capv = l["u"] * wv * l["kappa"] / (l["u"] + wv)
    return dict(kap=int(round(kappa * 1000)), hib=m6(dn * l["lanes"] + 2 * capv * dt) + 1000, s=l["s"] + 1, e=l["e"] + 1, len=int(round(l["len"] * 1000)), u=int(round(u * 10)),
                udt=int(round(u * dt * 1000)), gap=int(round(gap_m(sc, l, kappa) * 1000)),
                lanes=l["lanes"], prio=int(round(l["prio"] * 100)), cout=cor, cin=cir, cor0=cor0, cir0=cir0,
                sg=list(l["sg"]), toll=0, closed=(ci == 0), vgap=vgap, fftt=int(round(l["len"] / l["u"] * 1000)))


def toll_at(l, t):
    """tolls are step functions: list of (from second, value)"""
    if not l["toll"]:
        return 0.0
    v = 0.0
    for t0, val in l["toll"]:
        if t >= t0:
            v = val
    return v


def node_caps(sc, n):
    dt = dt_of(sc)
    if n["fc"] is None:
        return -1, 900000000, 1
    lanes = n["lanes"] if n["lanes"] is not None else math.ceil(n["fc"] / 0.8)
    inc = m6(n["fc"] * dt)
    if n["fc"] * dt > 390:
        return -1, 900000000, lanes
    return inc, inc, lanes


def spec_cfg(sc, logs=True):
    W = sc["W"]
    dt = dt_of(sc)
    rint = max(1, int(W["duo_time"] / dt + 1e-6))
    wt = min(1, W["duo_weight"] * (dt / W["duo_time"])) if W["gradual"] else W["duo_weight"]
    ex = sc["exact"]
    Ls = [link_rec(sc, l) for l in sc["L"]]
    for r, l in zip(Ls, sc["L"]):
        r["toll"] = int(round(toll_at(l, 0) * 1000))
        r["vgap"] = any(e["k"] in ("kappa",) and sc["L"][e["l"]] is l for e in sc["E"])
    Ns = []
    for k, n in enumerate(sc["N"]):
        inc, fr0, lanes = node_caps(sc, n)
        Ns.append({"in": [i + 1 for i, l in enumerate(sc["L"]) if l["e"] == k],
                   "out": [i + 1 for i, l in enumerate(sc["L"]) if l["s"] == k],
                   "sig": [int(round(g * 1000)) for g in n["sig"]], "off": int(round(n["off"] * 1000)),
                   "fc": inc, "fr0": fr0, "lanes": lanes})
    Vs = [dict(o=v["o"] + 1, d=v["d"] + 1, dep=v["dep"], add=v["add"], spec=[l + 1 for l in v["spec"]],
               pre=[l + 1 for l in (v["pre"] or v["spec"])], avo=[l + 1 for l in v["avo"]], ab=v["ab"])
          for v in sc["V"]]
    return dict(DN=W["deltan"], DT=int(round(dt * 1000)), tolx=0 if ex else 8, tolc=0 if ex else 1000,
                tolp=2, det=W["det"], cyc=W["nocyc"], rint=rint, ttint=min(int(W["itt"]), rint),
                W=int(round(wt * 10000)), grad=W["gradual"], noise=0 if W["det"] else int(round(W["duo_noise"] * 10000)),
                logs=bool(logs), logi=W["logint"], fin=True, L=Ls, N=Ns, V=Vs)


# ---------------------------------------------------------------- generators

def exact_gap_ok(sc, kappa, lanes):
    g = (1 / kappa) * lanes * sc["W"]["deltan"]
    return abs(g * 1000 - round(g * 1000)) == 0 and g == round(g * 8) / 8 and (lanes / kappa) * sc["W"]["deltan"] == g


def reachable(sc, a, b):
    seen, st = {a}, [a]
    while st:
        n = st.pop()
        for l in sc["L"]:
            if l["s"] == n and l["e"] not in seen:
                seen.add(l["e"])
                st.append(l["e"])
    return b in seen


def some_path(sc, rng, a, b, maxlen=8):
    """a random simple path of links from a to b, or None"""
    for _ in range(20):
        cur, path, vis = a, [], {a}
        while cur != b and len(path) < maxlen:
            out = [i for i, l in enumerate(sc["L"]) if l["s"] == cur and l["e"] not in vis]
            if not out:
                break
            l = rng.choice(out)
            path.append(l)
            cur = sc["L"][l]["e"]
            vis.add(cur)
        if cur == b and path:
            return path
    return None


def sig_clear(sig, off, dt, steps=90):
    """no comparison of the plan is closer than 1 % of a step to equality"""
    cyc = sum(sig)
    t = (-off) % cyc
    i = 0
    if off:
        acc = 0.0
        for g in sig:
            acc += g
            if abs(t - acc) < 0.02 * dt or t < 0.02 * dt or cyc - t < 0.02 * dt:
                return False
    while t >= sig[i]:
        t -= sig[i]
        i = (i + 1) % len(sig)
    for _ in range(steps):
        if abs(t - sig[i]) < 0.02 * dt:
            return False
        if t > sig[i]:
            i = (i + 1) % len(sig)
            t = 0
        t += dt
    return True


TOPOS = ["line", "merge", "diverge", "cross", "grid", "tworoute", "ring", "rand", "parallel", "deadend"]


def generate(seed, exact=True, det=None, engine="py", topo=None, events=False, focus=None, big=False, logint=1):
    """a random scenario; all randomness from seed"""
    rng = random.Random(seed * 7919 + 13)
    R = rng.random
    topo = topo or rng.choice(TOPOS)
    det = rng.random() < 0.5 if det is None else det
    if exact:
        dn, rt = rng.choice([(5, 1), (5, 1), (1, 1), (2, 1), (10, 1), (4, 0.5), (3, 1), (2, 1.5), (1, 2)])
    else:
        dn, rt = rng.choice([(5, 1), (3, 1.3), (1, 1), (2, 0.7), (7, 1), (4, 1.5), (5, 0.8), (1, 1.7), (1, 0.6), (2, 0.3), (1, 0.2)])
    dt = dn * rt
    steps = rng.randint(40, 70)
    sc = new(deltan=dn, rt=rt, det=det, seed=rng.randint(1, 10**6), steps=steps,
             duo_time=rng.choice([2, 3, 5, 8, 20]) * dt if exact else round(rng.choice([2.5, 3, 3.3, 5, 7, 9.7, 0.5]) * dt, 6),
             duo_weight=rng.choice([0.5, 0.5, 0.25, 1, 0.3]), duo_noise=rng.choice([0.01, 0.01, 0.1, 0]),
             itt=rng.choice([1, 2, 3, 5, 7]), gradual=R() < 0.2, nocyc=R() < 0.25)
    sc["exact"] = exact
    r2 = random.Random(seed * 31 + 7)
    if r2.random() < (.4 if focus == "reopen" else .12):      # updates of the routes at every step
        sc["W"]["duo_time"] = r2.choice([.5, 1]) * dt
    elif focus == "reopen":
        sc["W"]["duo_time"] = r2.choice([2, 3, 5]) * dt
    sc["W"]["logint"] = logint
    sc["topo"] = topo
    W = sc["W"]

    def glen(u):
        lo = 2.2 * u * dt
        if focus == "spill":
            m = int(lo) + rng.randrange(0, 60)
            return (m - m % 5 + 5) if exact else round(lo + rng.uniform(1, 60), 1)
        if exact:
            m = int(lo) + rng.choice([5, 20, 60, 100, 200, 300])
            return m - m % 5 + 5
        return round(lo + rng.uniform(5, 300), 1)

    def glink(s, e, **kw):
        u = kw.pop("u", None) or (rng.choice([10, 20, 20, 20, 40]) if exact else round(rng.uniform(6, 32), 1))
        lanes = kw.pop("lanes", None) or rng.choice([1, 1, 1, 2, 2, 3])
        if focus == "lanes":
            lanes = r2.choice([2, 3, 3, 4])
        if exact:
            ks = [k * lanes for k in (0.2, 0.2, 0.25, 0.125, 0.5, 0.1)]
            ks = [k for k in ks if exact_gap_ok(sc, k, lanes)] or [0.25 * lanes]
            kappa = rng.choice(ks)
        else:
            kappa = round(rng.uniform(0.09, 0.3) * lanes, 3)
        cout = cin = None
        capch = ([0.125, 0.25, 0.375, 0.5, 0.625, 0.75] if exact else [round(rng.uniform(0.07, 0.9), 3) for _ in range(3)])
        if focus == "spill" and kw.pop("jam", False):
            cin = rng.choice([0.125, 0.25]) if exact else round(rng.uniform(.1, .3), 3)
        elif focus == "caps" or (R() < 0.25 and focus != "lanes"):
            if R() < 0.6:
                cout = rng.choice(capch) * rng.choice([1, lanes])
            if R() < 0.6:
                cin = rng.choice(capch) * rng.choice([1, lanes])
            if R() < 0.06:
                cin = 0
        if exact and cout is None and cin is not None and not unbinding(sc, u, kappa, lanes):
            cout = 4.0
        if exact and not unbinding(sc, u, kappa, lanes):
            cout = cout or 4.0
            cin = 4.0 if cin is None else cin
        kw.pop("jam", None)
        kw.setdefault("prio", rng.choice([1, 1, 1, 0, 0.5, 2, 3]))
        toll = None
        if R() < 0.15:
            toll = [(0, rng.choice([0, 10, 30])), (rng.randint(3, 30) * dt, rng.choice([0, 25, 60, 100]))]
        return add_link(sc, s, e, glen(u), u=u, kappa=kappa, lanes=lanes, cout=cout, cin=cin,
                        toll=kw.pop("toll", toll), **kw)

    def gsig(k):
        if exact:
            sig = [rng.choice([2, 3, 4, 5, 7]) * dt + rng.choice([0, 0, 0.5 * dt]) for _ in range(k)]
        else:
            # no elapsed time may come near a phase duration: floating point noise decides there
            for _ in range(200):
                sig = [round(rng.uniform(2, 6) * dt, 1) for _ in range(k)]
                cyc = sum(sig)
                off = round(rng.uniform(-1.5, 1.5) * cyc, 1) if R() < 0.6 else 0
                if sig_clear(sig, off, dt):
                    return sig, off
            sig = [round(2.5 * dt, 3)] * k
            return sig, 0
        cyc = sum(sig)
        off = rng.choice([0, 0, dt, 2 * dt, -dt, cyc - dt, 3.5 * dt, cyc, cyc + 2 * dt, -cyc - dt]) if R() < 0.7 else 0
        return sig, off

    def gnode(sigk=0, **kw):
        sig = off = None
        if sigk:
            sig, off = gsig(sigk)
        fc = lanes = None
        if focus == "nodecap" or R() < 0.12:
            fc = rng.choice([0.25, 0.5, 0.75, 1.0, 1.5] if exact else [round(rng.uniform(0.2, 1.7), 3)])
            lanes = rng.choice([None, 1, 2, 3])
        return add_node(sc, sig=sig, off=off or 0, fc=fc, lanes=lanes, **kw)

    if focus == "wander":
        W["nocyc"] = True
    ods = []
    if topo == "line":
        k = rng.randint(2, 4)
        ns = [gnode(rng.choice([0, 0, 2])) for _ in range(k + 1)]
        for a, b in zip(ns, ns[1:]):
            if focus == "spill":
                glink(a, b, sg=rng.choice([(0,), (0, 1)]), jam=b == ns[-1], lanes=rng.choice([1, 2, 3, 3]))
                continue
            glink(a, b, sg=rng.choice([(0,), (1,), (0, 1)]))
        ods = [(ns[0], ns[-1]), (ns[0], ns[-1]), (ns[0], ns[-2] if k > 2 else ns[-1]), (ns[1], ns[-1])]
    elif topo == "merge":
        m = rng.choice([2, 2, 3])
        o = [gnode() for _ in range(m)]
        c = gnode(rng.choice([0, 0, 2, 3]))
        d = gnode()
        for i in o:
            glink(i, c, sg=(rng.randrange(2),) if R() < 0.8 else (0, 1), jam=False)
        glink(c, d, lanes=rng.choice([1, 1, 2]) if focus != "spill" else rng.choice([2, 3]), jam=R() < .5)
        if R() < 0.5:
            e = gnode()
            glink(d, e)
            ods = [(i, e) for i in o] + [(c, e)]
        else:
            ods = [(i, d) for i in o]
    elif topo == "diverge":
        o, c = gnode(), gnode(rng.choice([0, 0, 2]))
        ds = [gnode() for _ in range(rng.choice([2, 3]))]
        glink(o, c, sg=(0,))
        for d in ds:
            glink(c, d)
        ods = [(o, d) for d in ds]
    elif topo == "cross":
        c = gnode(rng.choice([2, 2, 3, 4, 0]))
        arms = [gnode() for _ in range(4)]
        for i, a in enumerate(arms):
            glink(a, c, sg=(i % 2,) if R() < 0.8 else (0, 1, 2))
            glink(c, a)
        ods = [(a, b) for a in arms for b in arms if a != b]
    elif topo == "grid":
        k = 3 if big else rng.choice([2, 2, 3])
        ns = [[gnode(rng.choice([0, 0, 2])) for _ in range(k)] for _ in range(2)]
        for i in range(2):
            for j in range(k):
                if j + 1 < k:
                    glink(ns[i][j], ns[i][j + 1], sg=(0,))
                    glink(ns[i][j + 1], ns[i][j], sg=(0,))
                if i == 0:
                    glink(ns[0][j], ns[1][j], sg=(1,))
                    glink(ns[1][j], ns[0][j], sg=(1,))
        fl = [n for r in ns for n in r]
        ods = [(a, b) for a in fl for b in fl if a != b]
        rng.shuffle(ods)
        ods = ods[:5]
    elif topo == "tworoute":
        a, b, c, d = gnode(), gnode(rng.choice([0, 2])), gnode(), gnode()
        glink(a, b)
        glink(a, c)
        glink(b, d, sg=(0, 1))
        glink(c, d)
        if R() < 0.4:
            glink(b, c, sg=(0,))
        if R() < 0.4:
            glink(a, d)
        ods = [(a, d)] * 3 + [(b, d)]
    elif topo == "ring":
        k = rng.randint(3, 5)
        ns = [gnode(rng.choice([0, 0, 2])) for _ in range(k)]
        for i in range(k):
            glink(ns[i], ns[(i + 1) % k])
        ods = [(ns[i], ns[(i + k - 1) % k]) for i in range(k)]
    elif topo == "parallel":
        a, b, c = gnode(), gnode(), gnode()
        glink(a, b)
        for _ in range(rng.choice([2, 3])):
            glink(b, c)
        ods = [(a, c), (b, c)]
    elif topo == "deadend":
        a, b, c, d = gnode(), gnode(), gnode(), gnode()
        glink(a, b)
        glink(b, c)
        glink(b, d)
        if R() < 0.5:
            e = gnode()
            glink(c, e)
        ods = [(a, c), (a, d), (a, len(sc["N"]) - 1)]
        if R() < 0.5:
            z = gnode()
            y = gnode()
            glink(y, z)
            ods.append((a, z))          # unreachable
    else:
        k = rng.randint(4, 6)
        ns = [gnode(rng.choice([0, 0, 0, 2])) for _ in range(k)]
        pairs = [(a, b) for a in ns for b in ns if a != b]
        rng.shuffle(pairs)
        for i in range(k - 1):
            glink(ns[i], ns[i + 1])
        for a, b in pairs[:rng.randint(3, 6)]:
            glink(a, b, sg=rng.choice([(0,), (1,), (0, 1)]))
        ods = [p for p in pairs if reachable(sc, *p)][:4]
    if focus == "wander":
        z = gnode()
        ods = ods + [(o, z) for o, _ in ods]      # out of reach: the vehicle goes anywhere it may
    # close a parallel link now and then
    pairs = {}
    for l in sc["L"]:
        pairs.setdefault((l["s"], l["e"]), []).append(l)
    for g in pairs.values():
        if len(g) > 1 and random.Random(seed).random() < .3:
            g[seed % len(g)]["cin"] = 0
    if focus == "reopen":       # every entrance of a destination is closed at first, later opened, and routes change then
        d = r2.choice(ods)[1]
        ins = [i for i, l in enumerate(sc["L"]) if l["e"] == d]
        at = r2.randint(2, steps // 2)
        for i in ins:
            if sc["L"][i]["s"] != d:
                sc["L"][i]["cin"] = 0
                if r2.random() < .9 or i == ins[0]:
                    sc["E"].append(dict(at=at + r2.choice([0, 0, 0, 3]), k="cin", l=i, val=r2.choice([0.5, 1.0, 4.0])))
        for _ in range(3):
            i = r2.randrange(len(sc["L"]))
            sc["E"].append(dict(at=r2.randint(at + 1, steps - 4), k="toll", l=r2.choice(ins + [i]), val=r2.choice([0, 40, 90, 500]), old=False))
    # demand
    nv = rng.randint(24, 36) if focus == "spill" else rng.randint(12, 26) if not big else rng.randint(25, 45)
    if dn == 1:
        nv = int(nv * 1.4)
    burst = R() < 0.5 or focus == "spill"
    deps = sorted((rng.randrange(0, max(2, steps // 3)) if not burst else rng.choice([0, 0, 1, 2, 3, 10, steps // 3]))
                  for _ in range(nv))
    if focus == "lanes":        # many side by side, not in the order of their names
        nv = 36
        deps = [r2.choice([0, 1, 2, 3, 6]) for _ in range(nv)]
    if R() < 0.3:
        rng.shuffle(deps)
    nl = len(sc["L"])
    for t in deps:
        o, d = rng.choice(ods)
        kw = {}
        if focus == "routes" or R() < 0.12:
            r = R()
            if r < 0.4:
                p = some_path(sc, rng, o, d)
                if p:
                    kw["spec"] = p
            elif r < 0.7:
                kw["pre"] = rng.sample(range(nl), min(nl, rng.choice([1, 2])))
            else:
                av = rng.sample(range(nl), min(nl, rng.choice([1, 2])))
                # never all outgoing links of a node, nor (net of preferences) an empty choice
                bad = any(all(i in av for i, l in enumerate(sc["L"]) if l["s"] == n)
                          for n in range(len(sc["N"])) if any(l["s"] == n for l in sc["L"]))
                if not bad:
                    kw["avo"] = av
        if R() < 0.05 and engine == "py" or engine != "py" and r2.random() < .08:
            kw["ab"] = 0
        if kw.get("pre") and not kw.get("avo") and (focus == "routes" or r2.random() < .3):
            # also avoids links, where a choice is always left
            av = r2.sample(range(nl), min(nl, r2.choice([1, 1, 2])))
            left = lambda n: [l for l in range(nl) if sc["L"][l]["s"] == n]
            if all(not left(n) or set([l for l in left(n) if l in kw["pre"]] or left(n)) - set(av) for n in range(len(sc["N"]))):
                kw["avo"] = av
        add_veh(sc, o, d, t, **kw)
    # departures with no way out of the origin are useless
    if events:
        add_events(sc, rng, engine, focus)
    sc["E"].sort(key=lambda e: e["at"])
    return sc


def add_events(sc, rng, engine, focus=None):
    W = sc["W"]
    dt = dt_of(sc)
    steps = W["steps"]
    nl, nn = len(sc["L"]), len(sc["N"])
    kinds = ["u", "kappa", "cap", "close", "signal", "signalreset", "nodecap", "route", "prefer", "avoid", "addveh", "prio", "toll"]
    if focus == "signals":
        kinds = ["signal", "signalreset", "signalreset"]
    for _ in range(rng.randint(2, 5)):
        at = rng.randint(2, steps - 8)
        k = rng.choice(kinds)
        l = rng.randrange(nl)
        L = sc["L"][l]
        if k == "u":
            val = rng.choice([5, 10, 20, 40]) if sc["exact"] else round(rng.uniform(5, 30), 1)
            if val * dt * 2.15 <= L["len"]:
                sc["E"].append(dict(at=at, k="u", l=l, val=val))
        elif k == "kappa":
            c = [x * L["lanes"] for x in (0.1, 0.125, 0.2, 0.25, 0.5)]
            c = [x for x in c if exact_gap_ok(sc, x, L["lanes"])] if sc["exact"] else [round(rng.uniform(.09, .3) * L["lanes"], 3)]
            if c:
                sc["E"].append(dict(at=at, k="kappa", l=l, val=rng.choice(c)))
        elif k == "cap":
            f = rng.choice(["cout", "cin"])
            sc["E"].append(dict(at=at, k=f, l=l, val=rng.choice([0.125, 0.25, 0.5, 1.0, 8.0]) if sc["exact"] else round(rng.uniform(.1, 1.2), 3)))
        elif k == "close":
            sc["E"].append(dict(at=at, k="cin", l=l, val=0))
            if rng.random() < 0.7:
                sc["E"].append(dict(at=min(steps - 3, at + rng.randint(3, 15)), k="cin", l=l, val=rng.choice([0.5, 1.0, 4.0])))
        elif k in ("signal", "signalreset"):
            ins = lambda i: [j for j, x in enumerate(sc["L"]) if x["e"] == i]
            c = [i for i, n in enumerate(sc["N"]) if len(n["sig"]) > 1 or (rng.random() < 0.3 and ins(i))]
            if c:
                i = rng.choice(c)
                n = len(sc["N"][i]["sig"])
                if n == 1 or rng.random() < 0.3:
                    n = rng.randint(1, 4)
                fr = 0 if sc["exact"] else 0.5
                rs = k == "signalreset" or not sc["exact"]
                ev = dict(at=at, k="sig", n=i, sig=[(rng.choice([2, 3, 5]) + fr) * dt for _ in range(n)], reset=rs)
                if n == 1 and rng.random() < 0.5:
                    ev["sig"] = [0]
                if rng.random() < 0.6:
                    g = [[] for _ in range(n)]
                    for j in ins(i):
                        for q in rng.sample(range(n), rng.choice([1, 1, min(2, n)])):
                            g[q].append(j)
                    ev["groups"] = g
                elif not rs and rng.random() < 0.4:
                    ev["attr"] = True
                sc["E"].append(ev)
        elif k == "prio":
            sc["E"].append(dict(at=at, k="prio", l=l, val=rng.choice([0, 0.5, 1, 2, 4])))
        elif k == "toll":
            sc["E"].append(dict(at=at, k="toll", l=l, val=rng.choice([0, 15, 40, 90]), old=not L["toll"] and rng.random() < 0.3))
        elif k == "nodecap":
            c = [i for i, n in enumerate(sc["N"]) if n["fc"] is not None]
            if c:
                sc["E"].append(dict(at=at, k="fc", n=rng.choice(c), val=rng.choice([0.25, 0.5, 1.0])))
        elif k in ("prefer", "avoid") and sc["V"]:
            v = rng.choice([i for i, q in enumerate(sc["V"]) if q["add"] < 0])
            if not sc["V"][v]["spec"]:
                s = rng.sample(range(nl), 1)
                if k == "avoid" and any(all(i in s for i, q in enumerate(sc["L"]) if q["s"] == n)
                                        for n in range(nn) if any(q["s"] == n for q in sc["L"])):
                    continue
                if k == "avoid" and sc["V"][v]["pre"]:
                    continue
                if k == "prefer" and sc["V"][v]["avo"]:
                    continue
                sc["E"].append(dict(at=at, k=k, v=v, s=s))
        elif k == "route":
            v = rng.choice([i for i, q in enumerate(sc["V"]) if q["add"] < 0])
            V = sc["V"][v]
            if V["dep"] > at and not V["spec"] and not V["pre"] and not V["avo"]:
                p = some_path(sc, rng, V["o"], V["d"])
                if p and not any(e.get("v") == v for e in sc["E"]):
                    sc["E"].append(dict(at=at, k="route", v=v, s=p))
        elif k == "addveh":
            V = rng.choice(sc["V"])
            add_veh(sc, V["o"], V["d"], max(0, at + rng.choice([0, 0, 1, 2, 3, 4, -1, -3, -6])), add=at)     # also a departure time that is over
            sc["E"].append(dict(at=at, k="addveh", v=len(sc["V"]) - 1))
    sc["E"].sort(key=lambda e: e["at"])
    # vehicles are numbered in order of creation
    init = [v for v in sc["V"] if v["add"] < 0]
    order = {id(v): i for i, v in enumerate(init)}
    new = list(init)
    for e in sc["E"]:
        if e["k"] == "addveh":
            order[id(sc["V"][e["v"]])] = len(new)
            new.append(sc["V"][e["v"]])
    for e in sc["E"]:
        if "v" in e:
            e["v"] = order[id(sc["V"][e["v"]])]
    sc["V"] = new


def draws(seed, kind, engine="py"):
    """many draws with probabilities in between: a saturated merge, or a fork with several ways of alike cost"""
    r = random.Random(seed * 53 + 11)
    n = 200
    if kind == "merge":
        sc = new(deltan=1, rt=1, duo_time=50, det=False, seed=r.randint(1, 10**6), steps=170)
        m = r.choice([2, 2, 3])
        A = [add_node(sc) for _ in range(m)]
        M, D = add_node(sc), add_node(sc)
        pr = r.choice([(1, 3), (2, 3), (0, 0), (1, 1), (1, 9), (3, 1), (0.5, 2), (0, 1)])
        pr = tuple(pr) + (r.choice([1, 2]),)
        for a, p in zip(A, pr):
            add_link(sc, a, M, 200, prio=p)
        add_link(sc, M, D, 400)
        for i in range(n):
            add_veh(sc, A[i % m], D, (i // m) * .5)
    else:
        sc = new(deltan=1, rt=1, duo_time=r.choice([4, 8]), duo_weight=r.choice([.1, .2, .3]), duo_noise=r.choice([.2, .4]), det=False,
                 seed=r.randint(1, 10**6), steps=260)
        m = r.choice([2, 3, 3, 4])
        O, F, D = add_node(sc), add_node(sc), add_node(sc)
        E2 = add_node(sc)
        add_link(sc, O, F, 100)
        add_link(sc, E2, D, 200)
        for k in range(m):                  # no two links between the same nodes: they would share a preference
            K = add_node(sc)
            a, b = [(F, D), (O, D), (F, E2), (F, E2)][k] if k else (F, D)
            add_link(sc, a, K, 150 + (100 if a == O else 0))
            add_link(sc, K, b, 150 + 10 * r.randint(0, 5) - (100 if b == E2 else 0))
        for i in range(n):
            add_veh(sc, O, D if i % 3 else E2, i)
    sc["exact"] = False
    sc["topo"] = "draws-" + kind
    return sc
