"""Aggregate traffic states against the recorded trajectories."""
import json, random
import uxenv, pool, judge, scen, rec, tlc
from scen import dt_of


def cs(x):
    return int(round(float(x) * 100))


def job(item):
    eng, seed, kw, tid = item
    rng = random.Random("c21/" + tid)
    sc = scen.generate(seed, engine=eng, **kw)
    dt = dt_of(sc)
    edt = rng.choice([20, 30, 45, 60, 120, 4 * dt])
    try:
        W = rec.new_world(sc, eng, eular_dt=edt)
        for n in sc["N"]:
            rec.add_node_to(W, n)
        for l in sc["L"]:
            kv = {}
            if rng.random() < .35:
                kv["eular_dx"] = rng.choice([25, 50, 100, l["len"], 130])
            rec.add_link_to(W, sc, l, **kv)
        vs = [rec.add_veh_to(W, sc, v, eng) for v in sc["V"] if v["add"] < 0]
        if rng.random() < .3:       # looked at in between
            W.exec_simulation(duration_t2=rng.randint(5, 25) * dt)
            W.analyzer.link_traffic_state_to_pandas()
            W.analyzer.mfd_to_pandas()
        part = rng.random() < .45       # the run is not over
        W.exec_simulation(duration_t2=rng.randint(4, 22) * dt) if part else W.exec_simulation()
        c = dict(id=tid, dt=cs(dt), dn=int(W.DELTAN), edt=cs(edt), tmax=cs(W.TMAX), L=[], M=[])
        name = [l["name"] for l in sc["L"]]
        T = {n: [] for n in name}
        for v in vs:
            old = None
            for t, l, x in zip(v.log_t, v.log_link, v.log_x):
                ln = None if isinstance(l, int) and l == -1 else getattr(l, "name", l)
                if ln is not None:
                    if ln != old:
                        T[ln].append([])
                    T[ln][-1].append([cs(t), cs(x)])
                    old = ln
        df = W.analyzer.link_traffic_state_to_pandas()
        R = {n: [] for n in name}
        for r in df.itertuples():
            a = float(r.delta_t) * float(r.delta_x) * 100
            R[r.link].append(dict(t=cs(r.t), x=cs(r.x), dt=cs(r.delta_t), dx=cs(r.delta_x), D=int(round(r.q * a)), K=int(round(r.k * a)), V=cs(r.v)))
        for n, l in zip(name, W.LINKS):
            if not (l.k_mat.shape == l.q_mat.shape == l.v_mat.shape):
                raise ValueError("shapes differ")
            c["L"].append(dict(len=cs(l.length), u=cs(l.u), dx=cs(l.edie_dx), T=T[n], R=R[n]))
        for k in range(3):
            pick = sorted(rng.sample(range(len(name)), rng.randint(1, len(name)))) if k else list(range(len(name)))
            arg = [name[i] if rng.random() < .5 else W.LINKS[i] for i in pick]
            d = W.analyzer.mfd_to_pandas(arg) if k else W.analyzer.mfd_to_pandas()
            c["M"].append(dict(L=[i + 1 for i in pick], R=[dict(t=cs(r.t), k=int(round(r.network_k * 1e6)), q=int(round(r.network_q * 1e6))) for r in d.itertuples()]))
    except uxenv.MachineryError:
        raise
    except Exception as e:
        import traceback
        return None, "%s: %s %s" % (type(e).__name__, str(e)[:200], traceback.format_exc()[-500:])
    return c, ""


FAMS = [("py", 80, {}), ("cpp", 80, {}), ("py", 25, dict(focus="spill")), ("cpp", 25, dict(focus="spill"))]


def run(ctx):
    r = tlc.run("UXEdieModel")
    ctx.add_tlc(r)
    ctx.note("model_states", r.distinct)
    for eng in ("py", "cpp"):
        uxenv.load(cpp=eng == "cpp")
        its = []
        for fi, (e, cnt, kw) in enumerate(FAMS):
            if e == eng:
                for k in range(ctx.n(cnt * 3, cnt * 14)):
                    seed = (ctx.seed * 31 + fi) * 10007 + k
                    its.append((eng, seed, kw, "%s/%d/%s" % (eng, seed, json.dumps(kw))))
        cases = []
        for it, r in zip(its, pool.run(job, its, per_item=120, total=1500)):
            if isinstance(r, pool.Died):
                ctx.viol("crash", it[3], r.why)
            elif r[1]:
                ctx.viol("crash", it[3], r[1])
            else:
                cases.append(r[0])
                ctx.note("cells", sum(len(l["R"]) for l in r[0]["L"]))
                ctx.note("points", sum(len(t) for l in r[0]["L"] for t in l["T"]))
        for cid, cl in judge.judge(ctx, "UXEdie", cases, batch=40):
            ctx.viol(cl, cid, "", dict(case=cid))
        if cases:
            l = max(cases[0]["L"], key=lambda l: len(l["T"]))
            ctx.sample(dict(case=cases[0]["id"], trajectory=l["T"][0][:5] if l["T"] else [], cell=[r for r in l["R"] if r["K"]][:1]))
