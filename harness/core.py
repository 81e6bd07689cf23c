"""Shared by all checks: context, evidence, verdicts."""
import hashlib, json, os, random, sys, time
import uxenv

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)


class Ctx:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough"):
            self.tier = sys.argv[2]
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.viols = []          # dict(clause, case, detail, data)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.extra = {}

    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def rng(self, *key):
        return random.Random("%s/%s/%s" % (self.pid, self.seed, "/".join(map(str, key))))

    def viol(self, clause, case, detail="", data=None):
        self.viols.append(dict(clause=clause, case=case, detail=str(detail)[:1500], data=data))

    def add_tlc(self, r):
        self.states += r.distinct
        self.transitions += r.generated

    def note(self, key, n=1):
        self.extra[key] = self.extra.get(key, 0) + n

    def sample(self, s):
        if len(self.samples) < 4:
            self.samples.append(s)


def known_findings():
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:"):
                d = dict(x.split("=", 1) for x in line[8:].split("|")[0].split() if "=" in x)
                d["what"] = line.split("|", 1)[1].strip() if "|" in line else ""
                out.append(d)
    return out


def finish(ctx):
    kf = [k for k in known_findings() if k.get("property") == ctx.pid]
    new, seen = [], {}
    for v in ctx.viols:
        hit = None
        for k in kf:
            if k.get("clause") == v["clause"] and k.get("case") == v["case"]:
                hit = k
        if hit:
            seen[hit["case"] + hit["clause"]] = hit
        else:
            new.append(v)
    for k in kf:
        print("KNOWN-FINDING: property=%s %s%s" % (ctx.pid, k["what"], "" if k["case"] + k["clause"] in seen else " (not exercised by this run)"))
    ev = dict(property=ctx.pid, tier=ctx.tier, seed=ctx.seed, level="model_checking",
              coverage=dict(states=ctx.states, transitions=ctx.transitions, traces_validated_against_impl=ctx.traces,
                            samples=ctx.samples or ["none"], **ctx.extra),
              wall_s=round(time.time() - ctx.t0, 1))
    ev["coverage"]["violations"] = len(new)
    OUT = os.environ.get("UX_OUT", ROOT)
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", ctx.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    if new:
        d = os.path.join(OUT, "replays")
        os.makedirs(d, exist_ok=True)
        by = {}
        for v in new:
            by.setdefault(v["clause"], []).append(v)
        first = None
        for c in sorted(by, key=lambda c: -len(by[c])):
            v = by[c][0]
            h = hashlib.sha1(("%s%s%s" % (ctx.pid, v["clause"], v["case"])).encode()).hexdigest()[:10]
            path = os.path.join("replays", "%s-%s.json" % (ctx.pid, h))
            with open(os.path.join(OUT, path), "w") as f:
                json.dump(dict(property=ctx.pid, seed=ctx.seed, tier=ctx.tier, **v), f, indent=1, default=str)
            print("  %s: %d case(s), e.g. %s: %s" % (c, len(by[c]), v["case"], v["detail"][:300].replace("\n", " ")))
            if first is None:
                first = path
        print("VIOLATION property=%s replay=%s" % (ctx.pid, first))
        return 1
    print("OK property=%s states=%d transitions=%d traces=%d wall=%.1fs %s" % (
        ctx.pid, ctx.states, ctx.transitions, ctx.traces, time.time() - ctx.t0, json.dumps(ctx.extra, default=str)))
    return 0
