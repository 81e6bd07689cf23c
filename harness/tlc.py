"""Run TLC on a module of /verif/spec with input data in a JSON file."""
import json, os, re, shutil, subprocess, tempfile, time
import uxenv

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar"


class TlcResult:
    def __init__(self):
        self.lines = []      # parsed @@V records
        self.generated = 0
        self.distinct = 0
        self.out = ""
        self.rc = None
        self.wall = 0


def classpath():
    d = os.path.dirname(JAR)
    jars = [os.path.join(d, f) for f in os.listdir(d) if f.endswith(".jar")]
    return ":".join([JAR] + [j for j in jars if j != JAR])


def run(module, cfg=None, env=None, workers=8, timeout=800, extra=(), heap="6g", expect_ok=True):
    cfg = cfg or module
    meta = tempfile.mkdtemp(prefix="tlc_", dir=uxenv.scratch())
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + meta, "-cp", classpath(), "tlc2.TLC", "-config",
           os.path.join(SPEC, cfg + ".cfg"), "-workers", str(workers), "-metadir", meta, "-noTE", "-nowarning",
           "-cleanup", *extra, os.path.join(SPEC, module + ".tla")]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=meta, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise uxenv.MachineryError("TLC timed out on " + module)
    finally:
        pass
    r = TlcResult()
    r.wall = time.time() - t0
    r.rc = p.returncode
    r.out = p.stdout.decode(errors="replace")
    for m in re.finditer(r'^"?@@V (.*)$', r.out, re.M):
        s = m.group(1).strip()
        if s.endswith('"'):
            s = s[:-1]
        s = s.replace('\\"', '"').replace("\\\\", "\\")
        r.lines.append(json.loads(s))
    m = re.search(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", r.out)
    if m:
        r.generated = int(m.group(1).replace(",", ""))
        r.distinct = int(m.group(2).replace(",", ""))
    shutil.rmtree(meta, ignore_errors=True)
    if expect_ok and r.rc != 0:
        raise uxenv.MachineryError("TLC failed on %s (exit %s):\n%s" % (module, r.rc, r.out[-4000:]))
    return r


EVAL_FAILED = (75, 76, 77)


def finite(v):
    if isinstance(v, float):
        return v == v and abs(v) != float("inf")
    if isinstance(v, dict):
        return all(finite(x) for x in v.values())
    if isinstance(v, (list, tuple)):
        return all(finite(x) for x in v)
    return True


def judge(ctx, module, key, cases, bad, heap="8g", keep=False):
    """Let the specification module judge the cases -> {id: verdict}. A case that lies outside the domain of the specification (its evaluation
    fails: an index that does not exist, something that is no number, ...) gets the verdict bad."""
    got, todo, lost = {}, [[c for c in cases if finite(c)]], [c for c in cases if not finite(c)]
    for c in lost:
        got[c["id"]] = bad
    while todo:
        cs = todo.pop()
        if not cs:
            continue
        f = os.path.join(uxenv.scratch(), module + ".json")
        with open(f, "w") as h:
            json.dump(cs, h)
        r = run(module, env={key: f}, heap=heap, timeout=3000, expect_ok=False)
        if not keep:
            os.unlink(f)
        ctx.add_tlc(r)
        for l in r.lines:
            got[l["id"]] = l
        if r.rc == 0:
            for c in cs:
                if c["id"] not in got:
                    raise uxenv.MachineryError("no verdict of %s for %s\n%s" % (module, c["id"], r.out[-1500:]))
            continue
        if r.rc not in EVAL_FAILED and not (r.rc == 255 and "Overflow when computing" in r.out):
            raise uxenv.MachineryError("TLC failed on %s (exit %s):\n%s" % (module, r.rc, r.out[-4000:]))
        miss = [c for c in cs if c["id"] not in got]
        if len(miss) == 1:
            got[miss[0]["id"]] = bad
            lost.append(miss[0])
        elif len(lost) >= 3:        # enough of them: the rest remains unjudged
            for c in miss:
                got[c["id"]] = bad
        else:
            todo += [miss[:len(miss) // 2], miss[len(miss) // 2:]]
    return got
