"""Whole histories of finished or partial runs, as the engine recorded them, and their
lockstep comparison by the specification UXHist."""
import io, json, os, struct, sys, zlib
import numpy as np
import uxenv, tlc, rec, scen
from scen import dt_of


def ints(a, k=1000.0):
    return [rec.ms(float(z)) if k == 1000.0 else int(round(float(z) * k)) for z in a]


def fbits(*arrs):
    c = 0
    for a in arrs:
        c = zlib.crc32(np.asarray([float(z) for z in a], dtype=float).tobytes(), c)
    return c & 0x7fffffff


def history(Wd, sc, vobj, engine, upto, bits=True, tta=True):
    """one record per time step below upto, and one with the results"""
    lg = rec.collect_logs(sc, vobj, engine, max(1, upto))
    links = [Wd.get_link(l["name"]) for l in sc["L"]]
    nodes = [Wd.get_node(n["name"]) for n in sc["N"]]
    ca = [np.asarray(l.cum_arrival, dtype=float) for l in links]
    cd = [np.asarray(l.cum_departure, dtype=float) for l in links]
    ti = [np.asarray(l.traveltime_instant, dtype=float) for l in links]
    ta = [np.asarray(l.traveltime_actual, dtype=float) for l in links]
    sg = [list(n.signal_log) for n in nodes]
    raw = {}
    if bits:
        for i, o in vobj.items():
            raw[i] = (np.asarray(o.log_x, dtype=float), np.asarray(o.log_v, dtype=float), len(o.log_t))
    out = []

    def at(a, T):
        return a[T] if T < len(a) else -7
    for T in range(upto):
        e = dict(state=[], link=[], x=[], v=[], lane=[])
        for vi, vs in enumerate(lg[T]):
            if T < sc["V"][vi]["add"]:
                continue        # not there yet
            for q in vs[:1]:
                e["state"].append(q[0])
                e["link"].append(q[1])
                e["x"].append(q[2])
                e["v"].append(q[3])
                e["lane"].append(q[4])
            if len(vs) != 1:
                e["state"] += [50 + len(vs)]
        e["arrivals"] = [int(round(float(at(a, T)))) for a in ca]
        e["departures"] = [int(round(float(at(a, T)))) for a in cd]
        e["instant_tt"] = [rec.ms(float(at(a, T))) for a in ti]
        if tta:
            e["actual_tt"] = [rec.ms(float(at(a, T))) for a in ta]
        e["signal"] = [int(at(a, T)) for a in sg]
        if bits:
            e["bits"] = [fbits([at(a, T) for a in ti + (ta if tta else [])])]
            xs = []
            for i, (x, v, n) in raw.items():
                k = T - (Wd_start(vobj[i], n, upto))
                if 0 <= k < n:
                    xs += [x[k], v[k]]
            e["bits"].append(fbits(xs))
        out.append(e)
    f = dict(fstate=[], traveltime=[], arrival=[], route=[], dist=[])
    for i in sorted(vobj):
        o = vobj[i]
        f["fstate"].append(rec.ST.get(o.state, 9))
        f["traveltime"].append(rec.ms(float(o.travel_time)))
        f["arrival"].append(int(o.arrival_time))
        r, ts = o.traveled_route()
        f["route"] += [zlib.crc32(l.name.encode()) & 0xffffff for l in r] + [-9] + [rec.ms(float(t)) for t in ts] + [-8]
        f["dist"].append(rec.ms(float(o.distance_traveled)))
    out.append(f)
    return out


def Wd_start(o, n, upto):
    """log index 0 is this step"""
    return upto - n


def results(Wd):
    """summary statistics after termination"""
    a = Wd.analyzer
    return dict(summary=[rec.ms(float(z)) for z in (a.trip_all, a.trip_completed, a.total_travel_time, a.average_travel_time,
                                                    a.total_delay, a.average_delay, a.total_distance_traveled, a.average_speed)])


class Quiet:
    """send whatever is printed at the process level nowhere"""

    def __enter__(self):
        sys.stdout.flush()
        self.o = os.dup(1)
        self.n = os.open("/dev/null", os.O_WRONLY)
        os.dup2(self.n, 1)
        self.py = sys.stdout
        sys.stdout = io.StringIO()

    def __exit__(self, *a):
        sys.stdout = self.py
        os.dup2(self.o, 1)
        os.close(self.o)
        os.close(self.n)
        return False


def judge(ctx, cases, heap="8g"):
    """cases: dict(id, n, dt, tol, ref, runs=[dict(name, calls, hist)]) -> [(id, clause, run, step)]"""
    if not cases:
        return []
    out = []
    B = 60
    for b in range(0, len(cases), B):
        got = tlc.judge(ctx, "UXHist", "UX_HIST", cases[b:b + B], {"bad": [["outside-specification", "", 0]]}, heap)
        for c in cases[b:b + B]:
            l = got[c["id"]]
            ctx.traces += len(c["runs"])
            for cl, run, step in l["bad"]:
                out.append((c["id"], cl, run, step))
    return out
