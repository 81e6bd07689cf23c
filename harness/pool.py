"""Run jobs in forked workers.  A worker that dies or hangs while running the code
under test is reported for the job it was running, not as a failure of the machinery."""
import os, pickle, signal, struct, time, traceback
import uxenv


class Died:
    def __init__(self, why):
        self.why = why


def _worker(fn, items, path):
    with open(path, "ab") as f:
        def emit(o):
            b = pickle.dumps(o)
            f.write(struct.pack("<Q", len(b)) + b)
            f.flush()
        for k, it in items:
            emit(("start", k, time.time()))
            try:
                r = ("ok", k, fn(it))
            except BaseException:
                r = ("err", k, traceback.format_exc())
            emit(r)
    os._exit(0)


def _read(path):
    out = []
    try:
        b = open(path, "rb").read()
    except FileNotFoundError:
        return out
    p = 0
    while p + 8 <= len(b):
        n = struct.unpack("<Q", b[p:p + 8])[0]
        if p + 8 + n > len(b):
            break
        out.append(pickle.loads(b[p + 8:p + 8 + n]))
        p += 8 + n
    return out


def _last(path):
    """number of complete records and the last one, cheaply"""
    r = _read(path)
    return r


def run(fn, items, procs=8, per_item=60, total=600):
    """results in the order of items; a Died object for a job that killed or hung its worker"""
    items = list(enumerate(items))
    res = [None] * len(items)
    parts = [items[i::procs] for i in range(procs)]
    parts = [p for p in parts if p]
    live = {}
    seq = 0

    def spawn(part):
        nonlocal seq
        seq += 1
        path = os.path.join(uxenv.scratch(), "job%d_%d" % (os.getpid(), seq))
        pid = os.fork()
        if pid == 0:
            try:
                os.setpgid(0, 0)
                _worker(fn, part, path)
            finally:
                os._exit(3)
        live[pid] = (part, path, time.time())

    for p in parts:
        spawn(p)
    t0 = time.time()
    restarts = 0
    sizes = {}
    while live:
        pid, status = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            time.sleep(0.05)
            now = time.time()
            for q, (part, path, st) in list(live.items()):
                try:
                    m = os.path.getmtime(path)
                except OSError:
                    m = st
                if now - max(m, st) > per_item:
                    try:
                        os.killpg(q, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
            if now - t0 > total:
                for q in list(live):
                    os.killpg(q, signal.SIGKILL)
                raise uxenv.MachineryError("jobs exceeded %d s" % total)
            continue
        if pid not in live:
            continue
        part, path, st = live.pop(pid)
        recs = _read(path)
        try:
            os.unlink(path)
        except OSError:
            pass
        started, fin = None, set()
        for r in recs:
            if r[0] == "start":
                started = r[1]
            else:
                fin.add(r[1])
                if r[0] == "err":
                    raise uxenv.MachineryError("job failed:\n" + r[2])
                res[r[1]] = r[2]
        rest = [x for x in part if x[0] not in fin]
        if rest:
            if started is not None and started not in fin:
                hung = os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGKILL
                res[started] = Died("hangs or was killed" if hung else "process died (%s)" % (
                    "signal %d" % os.WTERMSIG(status) if os.WIFSIGNALED(status) else "exit %d" % os.WEXITSTATUS(status)))
                rest = [x for x in rest if x[0] != started]
            restarts += 1
            if rest and restarts < 12:
                spawn(rest)
            else:
                for x in rest:
                    res[x[0]] = Died("not run: too many dead workers")
    return res
