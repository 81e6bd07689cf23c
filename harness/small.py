"""Small configurations for exhaustive exploration and replay.  Each family draws
parameters from finite option sets; `family(name, n, seed, det)` returns n of them."""
import random
import scen


def base(rng, det, **kw):
    dn, rt = rng.choice([(5, 1), (5, 1), (1, 1), (2, 1), (4, 0.5)])
    d = dict(deltan=dn, rt=rt, det=det, duo_noise=0, itt=rng.choice([1, 2, 3]), steps=26)
    d["duo_time"] = rng.choice([3, 5, 10]) * dn * rt
    d.update(kw)
    sc = scen.new(**d)
    sc["exact"] = True
    return sc, dn * rt


def L(sc, rng, s, e, k=3, **kw):
    """a link of about k free-flow steps; lengths are distinct so that routes never tie"""
    dt = scen.dt_of(sc)
    u = kw.pop("u", None) or rng.choice([10, 20, 20, 40])
    lanes = kw.pop("lanes", None) or rng.choice([1, 1, 2])
    ks = [q for q in (0.2, 0.25, 0.125, 0.1, 0.4, 0.5) if scen.exact_gap_ok(sc, q * lanes, lanes)]
    kappa = rng.choice(ks) * lanes
    ln = int(u * dt * k) + rng.choice([0, 5, 10, 35]) + 5 * (len(sc["L"]) % 3)
    cout, cin = kw.pop("cout", None), kw.pop("cin", None)
    if not scen.unbinding(sc, u, kappa, lanes):
        cout = 8.0 if cout is None else cout
        cin = 8.0 if cin is None else cin
    return scen.add_link(sc, s, e, max(ln, int(2.2 * u * dt) + 1), u=u, kappa=kappa, lanes=lanes, cout=cout, cin=cin, **kw)


def N(sc, **kw):
    return scen.add_node(sc, **kw)


def sig(rng, dt, k=2):
    s = [rng.choice([1, 2, 3]) * dt + rng.choice([0, 0.5 * dt]) for _ in range(k)]
    return dict(sig=s, off=rng.choice([0, 0, dt, 2.5 * dt, -dt, sum(s) + dt]))


def merge(rng, det):
    sc, dt = base(rng, det)
    k = rng.choice([2, 2, 3])
    o = [N(sc) for _ in range(k)]
    c = N(sc, **rng.choice([{}, {}, dict(fc=0.5, lanes=1), dict(fc=0.25, lanes=2), sig(rng, dt)]))
    d = N(sc)
    for i in o:
        L(sc, rng, i, c, prio=rng.choice([0, 1, 1, 2]), sg=rng.choice([(0,), (1,), (0, 1)]), cout=rng.choice([None, None, .25, .5]))
    L(sc, rng, c, d, cin=rng.choice([None, .25, .5]), cout=rng.choice([None, .5]), lanes=rng.choice([1, 2]))
    for _ in range(rng.choice([4, 5, 6]) if det else 5):
        scen.add_veh(sc, rng.choice(o), d, rng.choice([0, 0, 1, 2, 4]))
    return sc


def spill(rng, det):
    sc, dt = base(rng, det, steps=30)
    n = [N(sc) for _ in range(4)]
    L(sc, rng, n[0], n[1], k=rng.choice([2.5, 3]), lanes=rng.choice([1, 2, 3]))
    L(sc, rng, n[1], n[2], k=2.3, lanes=rng.choice([1, 2, 3]))
    L(sc, rng, n[2], n[3], k=2.3, cin=rng.choice([.125, .25, .5]), cout=rng.choice([None, .125]))
    for _ in range(7 if det else 5):
        scen.add_veh(sc, rng.choice([n[0], n[0], n[1]]), rng.choice([n[3], n[3], n[2]]), rng.choice([0, 0, 1, 1, 2, 3]))
    return sc


def signal(rng, det):
    sc, dt = base(rng, det, steps=28)
    a, b, d, e = N(sc), N(sc), N(sc), N(sc)
    c = N(sc, **sig(rng, dt, rng.choice([2, 2, 3])))
    L(sc, rng, a, c, sg=(0,))
    L(sc, rng, b, c, sg=rng.choice([(1,), (0, 1), (2,)]))
    L(sc, rng, c, d)
    L(sc, rng, c, e)
    for _ in range(6 if det else 5):
        scen.add_veh(sc, rng.choice([a, b]), rng.choice([d, e]), rng.choice([0, 0, 1, 2, 3]))
    return sc


def diverge(rng, det):
    sc, dt = base(rng, det)
    a, c, d, e = N(sc), N(sc), N(sc), N(sc)
    L(sc, rng, a, c, lanes=rng.choice([1, 2]))
    L(sc, rng, c, d, cin=rng.choice([None, .125, .25]))
    L(sc, rng, c, e, cin=rng.choice([None, .5, 0]))
    f = N(sc)
    L(sc, rng, d, f)
    for _ in range(6 if det else 5):
        scen.add_veh(sc, a, rng.choice([d, e, f]), rng.choice([0, 0, 1, 1, 2]), **rng.choice([{}, {}, dict(pre=[1]), dict(avo=[1]), dict(pre=[2])]))
    return sc


def routes(rng, det):
    sc, dt = base(rng, det, nocyc=rng.random() < .4, duo_weight=rng.choice([.5, 1, .25]), gradual=rng.random() < .2)
    a, b, c, d = N(sc), N(sc), N(sc), N(sc)
    L(sc, rng, a, b, k=2.3, u=20, lanes=1)
    L(sc, rng, a, c, k=3.1, u=20, lanes=1)
    L(sc, rng, b, d, k=3.7, u=20, lanes=1, cin=rng.choice([None, .25]))
    L(sc, rng, c, d, k=3.3, u=20, lanes=1)
    x = rng.random()
    if x < .4:
        L(sc, rng, b, c, k=2.25, u=20, lanes=1)
    elif x < .6:
        L(sc, rng, c, a, k=2.25, u=20, lanes=1)
    for _ in range(5 if det else 4):
        kw = rng.choice([{}, {}, {}, dict(spec=[0, 2]), dict(spec=[1, 3]), dict(pre=[1]), dict(avo=[0])])
        scen.add_veh(sc, rng.choice([a, a, b]) if not kw.get("spec") else a, d, rng.choice([0, 0, 1, 2, 5]), **kw)
    return sc


def deadend(rng, det):
    sc, dt = base(rng, det)
    a, b, c, d = N(sc), N(sc), N(sc), N(sc)
    L(sc, rng, a, b)
    L(sc, rng, b, c)
    L(sc, rng, b, d)
    for _ in range(5 if det else 4):
        # to c or d by a forced wrong turn, or where they want to go
        scen.add_veh(sc, a, rng.choice([c, d, b]), rng.choice([0, 0, 1, 2]), **rng.choice([{}, dict(pre=[2]), dict(pre=[1]), dict(avo=[1])]))
    return sc


def ring(rng, det):
    sc, dt = base(rng, det, steps=30)
    n = [N(sc) for _ in range(3)]
    for i in range(3):
        L(sc, rng, n[i], n[(i + 1) % 3], k=2.4, lanes=1)
    for _ in range(6 if det else 5):
        i = rng.randrange(3)
        scen.add_veh(sc, n[i], n[(i + 2) % 3], rng.choice([0, 0, 1, 2]))
    return sc


FAM = dict(merge=merge, spill=spill, signal=signal, diverge=diverge, routes=routes, deadend=deadend, ring=ring)


def family(names, n, seed, det):
    out = []
    for k in range(n):
        nm = names[k % len(names)]
        rng = random.Random("%s-%s-%s-%s" % (nm, seed, k, det))
        sc = FAM[nm](rng, det)
        sc["name"] = "%s-%d-%d" % (nm, seed, k)
        out.append(sc)
    return out


def model_cfg(sc, cid):
    c = scen.spec_cfg(sc)
    c.update(steps=sc["W"]["steps"], id=cid, live=False)
    return c
