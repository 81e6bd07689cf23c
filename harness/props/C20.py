"""Changes made between two simulation calls take effect from the next step on, and nothing else changes."""
import copy
import dyn, rec, scen, uxenv, pool

FAMS = [("py", 70, dict(events=True)), ("cpp", 90, dict(events=True)),
        ("py", 20, dict(events=True, topo=["cross", "tworoute", "grid"], focus="caps")),
        ("cpp", 30, dict(events=True, topo=["cross", "tworoute", "grid"], focus="nodecap")),
        ("py", 20, dict(events=True, topo=["cross", "cross", "merge", "grid"], focus="signals")),
        ("cpp", 20, dict(events=True, topo=["cross", "cross", "merge", "grid"], focus="signals")),
        ("py", 20, dict(events=True, exact=False)), ("cpp", 30, dict(events=True, exact=False))]


def run(ctx):
    for r in range(ctx.n(2, 14)):
        recs = dyn.record(ctx, dyn.scale(FAMS, ctx.n(1, 1.5)), ctx.seed + 200 + 100 * r)
        bad = dyn.validate(ctx, recs)
        dyn.stats(ctx, recs)
        ctx.note("interventions", sum(len(sc["E"]) for _, _, sc in recs))
        if bad:
            # what also goes wrong without the interventions is not about them
            ctl = []
            seen = {}
            for it, sc, c, step in bad:
                seen.setdefault(it[3], (it, sc))
            for eng in ("py", "cpp"):
                its = [v for v in seen.values() if v[0][0] == eng][:60]
                if not its:
                    continue
                uxenv.load(cpp=eng == "cpp")
                jobs = []
                for it, sc in its:
                    s2 = copy.deepcopy(sc)
                    s2["E"] = []
                    for v in s2["V"]:
                        v["add"] = -1
                    jobs.append((eng, s2, it[3]))
                for (e, s2, tid), t in zip(jobs, pool.run(dyn.scenario_job, jobs)):
                    if isinstance(t, pool.Died):
                        t = dict(id=tid, c=scen.spec_cfg(s2), steps=[], fin={}, crash=t.why)
                    ctl.append(((eng, 0, {}, tid), t, s2))
            base = {c for _, _, c, _ in dyn.validate(ctx, ctl)}
            for it, sc, c, step in bad:
                if c not in base:
                    ctx.viol(c, it[3], "step %s" % step, dict(kind="trace", engine=it[0], scenario=sc))
        if ctx.viols:
            break
