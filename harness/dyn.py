"""Checks of the traffic dynamics: exhaustive design model, replay of its behaviours in
both engines, validation of recorded executions."""
import json, os
import uxenv, scen, small, rec, tlc, pool

ALLC = "crash sane state queue".split()
CL = {
    "C01": "sane crash state queue arrivals departures balance on-one-link on-own-link duplicate depart-late depart-early "
           "run-lost link xfer-norequest fin-state end-kind end-early register-running register-living",
    "C02": "sane crash xfer-head lane enter-lane enter-space back beyond-end too-fast v-range end-order spacing storage queue",
    "C03": "crash move move-entry speed back too-fast v-range end-early end-missed",
    "C04": "crash enter-capin xfer-capout xfer-capnode",
    "C05": "crash enter-space gen-fifo gen-stall gen-many origin-queue storage xfer-head spacing",
    "C06": "crash sig-phase xfer-red sig-blocks",
    "C07": "crash xfer-explain xfer-stall",
    "C08": "sane crash gen-link gen-permit xfer-next xfer-permit end-place end-kind end-late end-early end-missed nx-deadend nx-none "
           "nx-connect nx-permit link run-lost fin-route fin-state",
    "C09": "crash dist-reach dist next-reach next-edge next-short pref gen-choice nx-choice tti tti-hold",
    "C10": "crash tti tti-hold log log-home log-after-end log-end log-count fin-traveltime fin-arrival fin-route fin-actual-tt "
           "arrivals departures balance speed",
}
CL = {k: set(v.split()) | {"outside-specification"} for k, v in CL.items()}


def trace_job(item):
    eng, seed, kw, tid = item
    sc = scen.generate(seed, engine=eng, **kw)
    tr = rec.run_trace(sc, eng, tid)
    tr.pop("world", None)
    tr.pop("vobj", None)
    return tr, sc


def record(ctx, fams, seed0):
    """fams: list of (engine, count, kwargs of scen.generate)"""
    items = []
    for fi, (eng, cnt, kw) in enumerate(fams):
        topos = kw.get("topo")
        for k in range(cnt):
            kk = dict(kw)
            if isinstance(topos, (list, tuple)):
                kk["topo"] = topos[k % len(topos)]
            seed = (seed0 * 7 + fi) * 10007 + k
            items.append((eng, seed, kk, "%s/%d/%s" % (eng, seed, json.dumps(kk, sort_keys=True))))
    # python first, so that the C++ build can go on meanwhile
    out = []
    for eng in ("py", "cpp"):
        its = [i for i in items if i[0] == eng]
        if not its:
            continue
        uxenv.load(cpp=eng == "cpp")
        for it, r in zip(its, pool.run(trace_job, its)):
            if isinstance(r, pool.Died):
                sc = scen.generate(it[1], engine=eng, **it[2])
                r = (dict(id=it[3], c=scen.spec_cfg(sc), steps=[], fin={}, crash=r.why), sc)
            out.append((it, r[0], r[1]))
    return out


def validate(ctx, recs):
    """-> list of (item, scenario, clause, step)"""
    trs = [t for _, t, _ in recs if not (t["crash"] and not t["steps"])]
    bad = []
    for it, t, sc in recs:
        if t["crash"]:
            bad.append((it, sc, "crash", t["crash"]))
            t["c"]["fin"] = False
            t["c"]["logs"] = False
    if trs:
        got = tlc.judge(ctx, "UXTrace", "UX_TRACES", trs, {"bad": [["outside-specification", 0]]})
        byid = {it[3]: (it, sc) for it, _, sc in recs}
        for t in trs:
            l = got[t["id"]]
            if not t["crash"]:
                ctx.traces += 1
            for c, step in l["bad"]:
                bad.append((byid[t["id"]][0], byid[t["id"]][1], c, step))
    return bad


def stats(ctx, recs):
    cross = ends = steps = 0
    for _, t, sc in recs:
        prev = None
        for o in t["steps"]:
            steps += 1
            if prev:
                for a, b, c, d in zip(prev["st"], o["st"], prev["ln"], o["ln"]):
                    if a == 2 and b == 2 and c != d:
                        cross += 1
                    if a == 2 and b in (3, 4):
                        ends += 1
            prev = o
    ctx.note("time_steps_observed", steps)
    ctx.note("node_crossings_observed", cross)
    ctx.note("trip_ends_observed", ends)


def traces(ctx, fams, clauses, seed0=None):
    recs = record(ctx, fams, ctx.seed if seed0 is None else seed0)
    bad = validate(ctx, recs)
    stats(ctx, recs)
    for it, t, sc in recs[:1]:
        ctx.sample(dict(trace=it[3], steps=len(t["steps"]), vehicles=len(sc["V"]), links=len(sc["L"])))
    for it, sc, c, step in bad:
        if c in clauses:
            ctx.viol(c, it[3], "step %s" % step, dict(kind="trace", engine=it[0], scenario=sc))
    return recs, bad


# ------------------------------------------------------- frequencies of draws

def route_draws(recs):
    """what free vehicles were offered at the end of a link, and what they chose: (engine, weights, index of the choice)"""
    out = []
    for it, t, sc in recs:
        if t["crash"] or sc["W"]["det"] or sc["W"]["nocyc"] or sc["E"]:
            continue
        ins = {}
        for i, l in enumerate(sc["L"]):
            ins.setdefault(l["s"], []).append(i)
        prev, pref = None, None
        for o in t["steps"]:
            if prev is not None and pref is not None:
                for i, v in enumerate(sc["V"]):
                    if o["nx"][i] and not prev["nx"][i] and o["ln"][i] and not (v["spec"] or v["pre"] or v["avo"]):
                        opts = ins.get(sc["L"][o["ln"][i] - 1]["e"], [])
                        if len(opts) > 1 and o["nx"][i] - 1 in opts:
                            out.append((it[0], [min(100000, max(0, pref[v["d"]][l])) for l in opts], opts.index(o["nx"][i] - 1) + 1))
            prev, pref = o, o.get("pref", pref)
    return out


def first_draws(recs):
    """what lone vehicles were offered at their origins"""
    out = []
    for it, t, sc in recs:
        if t["crash"] or sc["topo"] != "draws-route":
            continue
        home, prev, pref = None, None, None
        for o in t["steps"]:
            if home is not None and pref is not None:
                for i, v in enumerate(sc["V"]):
                    if o["st"][i] == 2 and prev["st"][i] == 1 and home["st"][i] == 0:      # no wait: the first draw was good
                        opts = [k for k, l in enumerate(sc["L"]) if l["s"] == v["o"]]
                        if len(opts) > 1 and o["ln"][i] - 1 in opts:
                            out.append((it[0], [min(100000, max(0, pref[v["d"]][l])) for l in opts], opts.index(o["ln"][i] - 1) + 1))
            home, prev, pref = prev, o, o.get("pref", pref)
    return out


def merge_draws(recs):
    """heads of single-lane links that compete for a place on a single-lane link, and who got it"""
    out = []
    for it, t, sc in recs:
        if t["crash"] or sc["W"]["det"] or sc["E"]:
            continue
        L = t["c"]["L"]
        prev = None
        for o in t["steps"]:
            if prev is not None:
                for b, l in enumerate(sc["L"]):
                    if l["lanes"] != 1:
                        continue
                    ins = [a for a, m in enumerate(sc["L"]) if m["e"] == l["s"]]
                    if len(ins) < 2 or len(sc["N"][l["s"]]["sig"]) > 1 or any(sc["L"][a]["lanes"] != 1 or L[a]["cout"] < 500000000 for a in ins):
                        continue
                    c = [(a, prev["q"][a][0]) for a in ins if prev["q"][a] and prev["nx"][prev["q"][a][0] - 1] == b + 1]
                    won = [k for k, (a, v) in enumerate(c) if o["ln"][v - 1] == b + 1]
                    if len(c) > 1 and len(won) == 1:
                        out.append((it[0], [int(round(sc["L"][a]["prio"] * 100)) for a, _ in c], won[0] + 1))
            prev = o
    return out


def draw_job(item):
    eng, seed, kind, tid = item
    sc = scen.draws(seed, kind, eng)
    tr = rec.run_trace(sc, eng, tid)
    tr.pop("world", None)
    tr.pop("vobj", None)
    return tr, sc


def draw_runs(ctx, kind, n):
    out = []
    for eng in ("py", "cpp"):
        its = [(eng, ctx.seed * 1000 + k, kind, "draws-%s/%s/%d" % (kind, eng, ctx.seed * 1000 + k)) for k in range(n)]
        uxenv.load(cpp=eng == "cpp")
        for it, r in zip(its, pool.run(draw_job, its)):
            if isinstance(r, pool.Died):
                ctx.viol("crash", it[3], r.why, dict(kind="draws", engine=eng, seed=it[1]))
            elif r[0]["crash"]:
                ctx.viol("crash", it[3], r[0]["crash"], dict(kind="draws", engine=eng, seed=it[1]))
            else:
                out.append((it, r[0], r[1]))
    return out


def lottery(ctx, kind, groups):
    """groups: {what: draws}"""
    import judge
    cases = []
    for what, draws in sorted(groups.items()):
        for eng in ("py", "cpp"):
            D = [dict(w=w, pick=k) for e, w, k in draws if e == eng][:8000]
            ctx.note("%s_draws_%s" % (what, eng), len(D))
            if D:
                cases.append(dict(id="%s/%s" % (what, eng), kind=kind, D=D))
    for cid, cl in judge.judge(ctx, "UXLottery", cases):
        ctx.viol(cl, cid, "")


# -------------------------------------------------- design model and its replay

def model(ctx, fams, n):
    """explore every behaviour of small configurations; the invariants must hold"""
    scs = small.family(fams, n, ctx.seed, False) + small.family(fams, n, ctx.seed + 50, True)
    f = os.path.join(uxenv.scratch(), "cfgs.json")
    with open(f, "w") as h:
        json.dump([small.model_cfg(sc, sc["name"]) for sc in scs], h)
    r = tlc.run("UXModel", env={"UX_CFGS": f, "UX_EMIT": "0"}, heap="8g", timeout=3000)
    ctx.add_tlc(r)
    ctx.note("model_configurations", len(scs))
    ctx.note("model_states", r.distinct)
    return r


def replay_job(item):
    eng, sc = item
    return run_small(sc, eng)


def run_small(sc, eng):
    """step the real engine through the scenario; projections as in UXModel.Project"""
    out = []
    try:
        Wd, vobj = rec.build(sc, eng)
        ob = None
        for T in range(sc["W"]["steps"]):
            Wd.exec_simulation(duration_t2=Wd.DELTAT)
            if ob is None:
                ob = rec.Observer(Wd, sc, eng, vobj)
            o = ob.observe(T, [])
            run = [s == 2 for s in o["st"]]
            out.append(dict(st=o["st"], ln=o["ln"], x=[x if r else 0 for x, r in zip(o["x"], run)],
                            lane=[x if r else 0 for x, r in zip(o["lane"], run)], q=o["q"], gq=o["gq"], ca=o["ca"], cd=o["cd"],
                            ph=[p if len(n["sig"]) > 1 else 0 for p, n in zip(o["ph"], sc["N"])]))
        return out, ""
    except uxenv.MachineryError:
        raise
    except Exception as e:
        return out, "%s: %s" % (type(e).__name__, e)


FIELD = {"st": "replay-state", "ln": "replay-link", "x": "replay-position", "lane": "replay-lane", "q": "replay-queue",
         "gq": "replay-origin", "ca": "replay-arrivals", "cd": "replay-departures", "ph": "replay-signal"}


def replay(ctx, fams, n, engines=("py", "cpp")):
    """behaviours computed from the specification, replayed in the real engines"""
    scs = small.family(fams, n, ctx.seed + 1000, True)
    f = os.path.join(uxenv.scratch(), "rcfgs.json")
    with open(f, "w") as h:
        json.dump([small.model_cfg(sc, sc["name"]) for sc in scs], h)
    r = tlc.run("UXModel", cfg="UXReplay", env={"UX_CFGS": f, "UX_EMIT": "1"}, heap="8g", timeout=3000)
    ctx.add_tlc(r)
    want = {l["id"]: l for l in r.lines}
    bad = []
    for eng in engines:
        uxenv.load(cpp=eng == "cpp")
        items = [(eng, sc) for sc in scs if not want[sc["name"]]["amb"]]
        for (e, sc), got in zip(items, pool.run(replay_job, items)):
            w = want[sc["name"]]["obs"]
            case = "replay/%s/%s" % (eng, sc["name"])
            if isinstance(got, pool.Died):
                bad.append((case, "crash", got.why, eng, sc))
                continue
            obs, err = got
            if err:
                bad.append((case, "crash", err, eng, sc))
                continue
            ctx.traces += 1
            done = False
            for T, (a, b) in enumerate(zip(w, obs)):
                for k in ("ph", "st", "ln", "gq", "q", "lane", "x", "ca", "cd"):
                    if a[k] != b[k]:
                        bad.append((case, FIELD[k], "step %d: specification %s, engine %s" % (T, a[k], b[k]), eng, sc))
                        done = True
                        break
                if done:
                    break
    ctx.note("behaviours_replayed", sum(1 for sc in scs if not want[sc["name"]]["amb"]) * len(engines))
    return bad


def classify(ctx, bad, clauses):
    """a behaviour that the engine does not reproduce: which law did the engine break?
    The same scenario is recorded and validated step by step."""
    left = []
    for eng in ("py", "cpp"):
        items = [b for b in bad if b[3] == eng][:12]
        if not items:
            continue
        uxenv.load(cpp=eng == "cpp")
        recs = []
        for b, r in zip(items, pool.run(scenario_job, [(eng, b[4], b[0]) for b in items])):
            if isinstance(r, pool.Died):
                r = dict(id=b[0], c=scen.spec_cfg(b[4]), steps=[], fin={}, crash=r.why)
            recs.append(((eng, 0, {}, b[0]), r, b[4]))
        found = validate(ctx, recs)
        hit = {f[0][3] for f in found}
        for it, sc, c, step in found:
            if c in clauses:
                ctx.viol(c, it[3], "step %s" % step, dict(kind="replay", engine=eng, scenario=sc))
        left += [b for b in items if b[0] not in hit]
    return left


def scenario_job(item):
    eng, sc, tid = item
    tr = rec.run_trace(sc, eng, tid)
    tr.pop("world", None)
    tr.pop("vobj", None)
    return tr


def scale(fams, k):
    return [(e, int(c * k), kw) for e, c, kw in fams]


# differences from a behaviour of the specification that no law on single steps explains
LEFT = {"C01": {"replay-state", "replay-link"}, "C02": {"replay-lane"}, "C03": {"replay-position"}, "C05": {"replay-queue", "replay-origin"},
        "C06": {"replay-signal"}, "C10": {"replay-arrivals", "replay-departures"}}


def standard(ctx, pid, fams, smalls, draws=None):
    """design model, replay of its behaviours, recorded executions"""
    drawn = []
    model(ctx, smalls, ctx.n(14, 120))
    for case, clause, detail, eng, sc in classify(ctx, replay(ctx, smalls, ctx.n(80, 800)), CL[pid]):
        if clause == "crash" or clause in LEFT.get(pid, ()):
            ctx.viol(clause, case, detail, dict(kind="replay", engine=eng, scenario=sc))
    if not ctx.viols:
        rounds = ctx.n(2, 12)
        for r in range(rounds):
            recs, _ = traces(ctx, scale(fams, ctx.n(1.25, 1.5)), CL[pid], seed0=ctx.seed + 100 * r)
            if draws:
                drawn += draws[1](recs)
            if ctx.viols:
                break
    if draws and not ctx.viols:
        more = draw_runs(ctx, draws[0], ctx.n(24, 80))
        lottery(ctx, draws[0], {draws[0]: draws[1](more) + drawn, "first": first_draws(more)})
