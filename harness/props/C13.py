"""Both engines, same scenario, deterministic mode: the same trajectories, curves and tables."""
import json, zlib
import numpy as np
import uxenv, scen, rec, hist, pool
from scen import dt_of

FAMS = [(70, {}), (20, dict(exact=False)), (30, dict(events=True)), (16, dict(topo=["cross", "tworoute", "grid", "rand"], focus="caps")),
        (16, dict(topo=["grid", "rand", "tworoute"], big=True)), (14, dict(focus="spill", topo=["line", "merge"])),
        (14, dict(focus="nodecap", topo=["cross", "grid", "merge"])), (12, dict(focus="wander", topo=["grid", "rand", "cross"])),
        (10, dict(exact=False, events=True)), (14, dict(focus="routes")), (36, dict(focus="reopen", topo=["tworoute", "grid", "rand"]))]


def cell(z):
    import numpy as np
    if z is None:
        return [-3]
    if isinstance(z, str):
        return [zlib.crc32(z.encode()) & 0xffffff]
    f = float(z)
    if f != f:
        return [-5]
    if f in (float("inf"), float("-inf")):
        return [-6 if f > 0 else -7]
    return [int(max(-1e9, min(1e9, round(f * 100))))]


def table(df):
    out = [df.shape[0], df.shape[1]]
    for c in df.columns:
        out += cell(str(c))
    for row in df.itertuples(index=False):
        for z in row:
            out += cell(z)
    return out


def tables(Wd):
    a = Wd.analyzer
    return {"tab-od": table(a.od_to_pandas()), "tab-link": table(a.link_to_pandas()), "tab-trip": table(drop(a.vehicle_trip_to_pandas())),
            "tab-basic": table(a.basic_to_pandas()), "tab-vehicles": table(drop(a.vehicles_to_pandas())),
            "tab-cumulative": table(a.link_cumulative_to_pandas()), "tab-gps": table(drop(a.gps_like_log_to_pandas()))}


def drop(df):
    """names of vehicles differ between the engines; so does the spacing of a vehicle without leader"""
    return df[[c for c in df.columns if c not in ("name", "s")]]


def tied(W):
    """two shortest ways from some node: either engine may take either"""
    A, D = np.asarray(W.ROUTECHOICE.adj_mat_time, dtype=float), np.asarray(W.ROUTECHOICE.dist, dtype=float)
    for i in range(len(A)):
        js = np.nonzero(A[i])[0]
        if len(js) > 1:
            C = A[i, js][:, None] + D[js]
            C = np.sort(C, axis=0)[:, np.arange(len(A)) != i]
            with np.errstate(invalid="ignore"):
                if np.any(np.isfinite(C[1]) & (C[1] - C[0] < 1e-6 * (1 + C[0]))):
                    return True
    return False


def job(item):
    eng, seed, kw, tid = item
    sc = scen.generate(seed, engine="cpp", det=True, **kw)
    n = sc["W"]["steps"]
    tie = None
    try:
        Wd, vobj = rec.build(sc, eng)
        for T in range(n):
            for e in sc["E"]:
                if e["at"] == T:
                    rec.apply_event(Wd, sc, e, vobj, eng)
            Wd.exec_simulation(duration_t2=Wd.DELTAT)
            if eng == "py" and tie is None and tied(Wd):
                tie = T
        h = hist.history(Wd, sc, vobj, eng, n, bits=False) + [hist.results(Wd)]
        full = seed % 3 == 0
        return h, (tables(Wd) if full else {}), "", tie
    except uxenv.MachineryError:
        raise
    except Exception as e:
        import traceback
        return None, None, "%s: %s %s" % (type(e).__name__, str(e)[:300], traceback.format_exc()[-300:]), None


def run(ctx):
    items = []
    for fi, (cnt, kw) in enumerate(FAMS):
        for k in range(ctx.n(cnt * 2, cnt * 12)):
            seed = (ctx.seed * 41 + fi) * 10007 + k
            kk = dict(kw)
            if isinstance(kw.get("topo"), list):
                kk["topo"] = kw["topo"][k % len(kw["topo"])]
            items.append((seed, kk, "%d/%s" % (seed, json.dumps(kk))))
    got = {}
    for eng in ("py", "cpp"):
        uxenv.load(cpp=eng == "cpp")
        got[eng] = pool.run(job, [(eng,) + i for i in items], per_item=120, total=2000)
    cases = []
    ties = {}
    for it, a, b in zip(items, got["py"], got["cpp"]):
        bad = False
        for eng, r in (("py", a), ("cpp", b)):
            if isinstance(r, pool.Died) or r[2]:
                ctx.viol("crash", it[2], "%s: %s" % (eng, r.why if isinstance(r, pool.Died) else r[2]))
                bad = True
        if bad:
            continue
        ex = it[1].get("exact", True)
        tol = dict(none=0)
        for f in ("x", "v", "instant_tt", "actual_tt", "traveltime", "dist", "summary"):
            tol[f] = 2
        for f in a[1]:
            tol[f] = 1
        ties[it[2]] = a[3]
        cases.append(dict(id=it[2], n=1, dt=1000, tol=tol, ref=a[0] + [a[1]], runs=[dict(name="cpp", calls=[], hist=b[0] + [b[1]])]))
        ctx.note("tables_compared", len(a[1]))
    ctx.note("cases_with_tied_routes", sum(t is not None for t in ties.values()))
    for cid, cl, rn, st in hist.judge(ctx, cases):
        if ties[cid] is not None and ties[cid] <= st:
            ctx.note("differences_after_a_tie")
            continue
        ctx.viol(cl, cid, "%s at %s" % (rn, st), dict(case=cid))
    if cases:
        ctx.sample(dict(case=cases[0]["id"], steps=len(cases[0]["ref"])))
