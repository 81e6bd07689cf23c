"""A network is built exactly as described, or the call is rejected."""
import json, random
import uxenv, pool, judge, net, tlc

T_KINDS = ["node"] * 4 + ["link"] * 5 + ["veh"] * 5 + ["demand"] * 2 + ["getnode", "getlink", "route", "route", "enforce"]


def job(item):
    eng, seed, tid = item
    rng = random.Random("c22/" + tid)
    dn, rt = rng.choice([(5, 1), (1, 1), (2, 1), (10, 1), (5, 2), (4, 0.5)])
    dt = dn * rt
    ask = rng.choice([None, None, 30 * dt])
    adj = rng.random() < .4
    ux = uxenv.load(cpp=eng == "cpp")
    kw = dict(cpp=True) if eng == "cpp" else {}
    try:
        W = ux.World("c22", deltan=dn, reaction_time=rt, tmax=ask, random_seed=seed, print_mode=0, save_mode=0, show_mode=0, show_progress=0,
                     adjust_node_capacity=adj, route_choice_principle=rng.choice(["homogeneous_DUO", "homogeneous_DUO", "heterogeneous_DUO"]), **kw)
        b = net.Builder(W, dt)
        # a core that makes every run possible
        b.call(net.q_node(rng, "A"))
        b.call(net.q_node(rng, "B"))
        b.call(net.q_link(rng, "AB", "A", "B", str))
        b.call(net.q_link(rng, "BA", "B", "A", str))
        late = rng.random() < .5        # network and demand interleaved
        for step in range(rng.randint(10, 24)):
            nodes, links = [n.name for n in W.NODES], [l.name for l in W.LINKS]
            k = rng.choice(T_KINDS)
            if not late and step < 9 and k in ("veh", "demand", "enforce"):
                k = rng.choice(["node", "link"])
            if not late and step >= 9 and k in ("node", "link"):
                k = "veh"

            def spell(nm):
                return W.NODES_NAME_DICT[nm] if nm in W.NODES_NAME_DICT and rng.random() < .4 else nm

            def anode():
                return rng.choice(nodes) if rng.random() < .93 else "nowhere"
            if k == "node":
                dup = rng.random() < .25
                nm = rng.choice(nodes) if dup else rng.choice(["p", "q", "N 1", "x"]) + str(step)
                b.call(net.q_node(rng, nm, rename=rng.random() < .4))
            elif k == "link":
                s, e = anode(), anode()
                if s == e:
                    e = rng.choice([n for n in nodes if n != s])
                nm = rng.choice(links) if rng.random() < .25 else rng.choice([None, "m%d" % step])
                b.call(net.q_link(rng, nm, s, e, spell, rename=rng.random() < .4))
            elif k == "veh":
                o, d = anode(), anode()
                vs = list(W.VEHICLES)
                r = rng.random()
                nm = None if r < .45 else rng.choice(vs) if r < .6 and vs else str(rng.randint(0, 12)) if r < .8 else "car%d" % step
                dep = rng.choice([0, 1, 7, rng.randint(0, 25), rng.choice([0, 400, 900])])
                kv = {}
                if nm is not None:
                    kv["name"] = nm
                ren = rng.random() < .3
                if ren:
                    kv["auto_rename"] = True
                at = rng.choice([0, 0, 5])
                if at:
                    kv["attribute"] = at
                pre = [rng.choice(links + ["nolink"] * (rng.random() < .3))] if rng.random() < .3 else []
                avo = ["nolink"] if rng.random() < .06 else []
                if pre:
                    kv["links_prefer"] = list(pre)
                if avo:
                    kv["links_avoid"] = list(avo)
                t = dep
                if rng.random() < .5:
                    kv["departure_time_is_time_step"] = 1
                else:
                    t = dep * dt + rng.choice([0, 0, dt / 4])
                b.call(dict(k="veh", asked=nm or "", rename=ren, o=o, d=d, dep=dep, pre=pre, avo=avo, attr=at, args=[spell(o), spell(d), t], kw=kv))
            elif k == "demand":
                o, d = anode(), anode()
                t0 = rng.randint(0, 20)
                # all of it departs in one step
                b.call(dict(k="demand", asked="", o=o, d=d, dep=t0, attr=3, args=[spell(o), spell(d), t0 * dt, (t0 + 1) * dt],
                            kw=dict(volume=dn * rng.choice([1, 1, 2, 3]), attribute=3)))
            elif k == "getnode":
                nm = rng.choice(nodes + ["nowhere"] * 3)
                b.call(dict(k=k, asked=nm, args=[nm]))
            elif k == "getlink":
                nm = rng.choice(links + ["nolink"] * 3)
                b.call(dict(k=k, asked=nm, args=[nm]))
            elif k in ("route", "enforce"):
                path = [rng.choice(links)]
                for _ in range(rng.randint(0, 3)):
                    nxt = [l.name for l in W.get_link(path[-1]).end_node.outlinks.values()]
                    path.append(rng.choice(nxt) if nxt and rng.random() < .8 else rng.choice(links))
                if rng.random() < .15:
                    path.insert(rng.randint(0, len(path)), "nolink")
                arg = [W.LINKS_NAME_DICT[p] if p in W.LINKS_NAME_DICT and rng.random() < .4 else p for p in path]
                if k == "route":
                    b.call(dict(k=k, path=path, args=[arg]))
                elif "nolink" in path and W.VEHICLES:
                    nm = rng.choice(list(W.VEHICLES))
                    b.call(dict(k=k, path=path, args=[lambda W, nm=nm: W.VEHICLES[nm], arg]))
        P = dict(rt10=int(round(rt * 10)), dt10=int(round(dt * 10)))
        c = dict(id=tid, P=P, Q=b.rec, adj=adj, asktmax=-1 if ask is None else int(round(ask * 10)))
        W.exec_simulation(duration_t2=3 * dt)       # nothing that was rejected is left behind
        c["fin"] = net.final(W, P)
        c["after"] = int(W.T == 3 and len(W.VEHICLES) == len(c["fin"]["V"]))
        c["tmax"], c["steps"] = int(round(W.TMAX * 10)), int(W.TSIZE)
    except uxenv.MachineryError:
        raise
    except Exception as e:
        import traceback
        return None, "%s: %s %s" % (type(e).__name__, str(e)[:300], traceback.format_exc()[-600:])
    return c, ""


def run(ctx):
    r = tlc.run("UXNetModel")
    ctx.add_tlc(r)
    ctx.note("model_states", r.distinct)
    for eng, cnt in (("py", 220), ("cpp", 220)):
        uxenv.load(cpp=eng == "cpp")
        items = [(eng, ctx.seed * 100003 + k, "%s/%d" % (eng, ctx.seed * 100003 + k)) for k in range(ctx.n(cnt * 4, cnt * 15))]
        cases = []
        for it, r in zip(items, pool.run(job, items, per_item=120, total=1500)):
            if isinstance(r, pool.Died):
                ctx.viol("crash", it[2], r.why)
            elif r[1]:
                ctx.viol("crash", it[2], r[1])
            else:
                cases.append(r[0])
                ctx.note("calls", len(r[0]["Q"]))
                ctx.note("rejected_calls", sum(1 for q in r[0]["Q"] if not q["ok"]))
        for cid, cl in judge.judge(ctx, "UXNetTrace", cases, batch=120):
            ctx.viol(cl, cid, "", dict(case=cid, calls=[(q["k"], q.get("asked"), q["ok"], q["err"]) for c in cases if c["id"] == cid for q in c["Q"]]))
        if cases:
            ctx.sample(dict(case=cases[0]["id"], calls=[(q["k"], q.get("asked"), q["ok"], q["err"]) for q in cases[0]["Q"]][:6]))
