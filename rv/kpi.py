"""KPIs recomputed from the event log of a run."""
import datetime as dt
from .cal import EPOCH

NAMES = ["Waiting Time", "Processing Time", "Cycle Time", "Idle Time", "Idle Cycle Time", "Idle Processing Time", "Cost"]


def union(iv):
    """disjoint sorted union of [start, end] intervals"""
    out = []
    for s, e in sorted(iv):
        if e <= s:
            continue
        if out and s <= out[-1][1]:
            if e > out[-1][1]:
                out[-1][1] = e
        else:
            out.append([s, e])
    return out


def length(iv):
    return sum(e - s for s, e in union(iv))


def at(x):
    return EPOCH + dt.timedelta(microseconds=x)


def worked(cal, iv):
    """calendar working time in the union of intervals (us)"""
    return sum(cal.work(at(s), at(e)) for s, e in union(iv))


def working_pieces(cal, s, e):
    """pieces of [s, e] inside the calendar (us)"""
    from .cal import WEEK
    out = []
    w = s // WEEK
    while w * WEEK < e:
        for a, b in cal.iv:
            x, y = max(s, a + w * WEEK), min(e, b + w * WEEK)
            if y > x:
                out.append([x, y])
        w += 1
    return out


def agg(xs):
    if not xs:
        return None
    return {"count": len(xs), "min": min(xs), "max": max(xs), "avg": sum(xs) / len(xs), "total": sum(xs)}


def activity(v, rows, processing=None):
    """KPIs (seconds) of the executions of one activity"""
    out = {k: [] for k in NAMES}
    for r in rows:
        x = v.res[r["res"]]
        w, ip = (r["st"] - r["en"]) / 1e6, (r["co"] - r["st"]) / 1e6
        p = processing(r) if processing else x["cal"].work(at(r["st"]), at(r["co"])) / 1e6
        out["Waiting Time"].append(w)
        out["Processing Time"].append(p)
        out["Idle Time"].append(ip - p)
        out["Cycle Time"].append(w + p)
        out["Idle Cycle Time"].append(w + ip)
        out["Idle Processing Time"].append(ip)
        out["Cost"].append(p * x["cost"] / 3600)
    return {k: agg(x) for k, x in out.items()}


def case(v, rows, pieces=None):
    """KPIs (seconds) of one case; rows of activities and intermediate events"""
    if not rows:
        return {k: 0.0 for k in ("cycle_time", "processing_time", "idle_cycle_time", "idle_processing_time", "waiting_time", "idle_time")}
    real = []
    for r in rows:
        if not r["is_event"]:
            real += pieces(r) if pieces else working_pieces(v.res[r["res"]]["cal"], r["st"], r["co"])
    ic = (max(r["co"] for r in rows) - min(r["en"] for r in rows)) / 1e6
    ip = length([(r["st"], r["co"]) for r in rows]) / 1e6
    p = length(real) / 1e6
    w = length([(r["en"], r["st"]) for r in rows]) / 1e6
    return {"cycle_time": ic - (ip - p), "processing_time": p, "idle_cycle_time": ic, "idle_processing_time": ip, "waiting_time": w,
            "idle_time": ip - p}


def close(a, b, scale, tol):
    return abs(a - b) <= tol + 1e-9 * abs(scale)
