"""Drive the real simulator and parse what it wrote."""
import contextlib, csv, datetime as dt, io, json, os, random, shutil, tempfile
import numpy as np
from .cal import us
from . import env

BASE = ["case_id", "activity", "enable_time", "start_time", "end_time", "resource"]


class SimCrash(Exception):
    pass


class BadLog(Exception):
    pass


def scratch():
    return tempfile.mkdtemp(prefix="rv_")


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield


def seed(s):
    random.seed(s)
    np.random.seed(s % (1 << 32))


def parse_time(s):
    return dt.datetime.fromisoformat(s)


class Log:
    def __init__(self, path):
        with open(path, newline="", encoding="utf-8") as f:
            raw = list(csv.reader(f, strict=True))
        if not raw:
            raise BadLog("empty log file: no header")
        self.header = raw[0]
        if self.header[:6] != BASE:
            raise BadLog("unexpected header %r" % (self.header,))
        if len(set(self.header)) != len(self.header):
            raise BadLog("header names a column twice: %r" % (self.header,))
        self.rows = []
        for i, x in enumerate(raw[1:]):
            if len(x) != len(self.header):
                raise BadLog("row %d has %d fields, header %d: %r" % (i, len(x), len(self.header), x))
            try:
                t = [parse_time(v) for v in x[2:5]]
                case = int(x[0])
            except ValueError as e:
                raise BadLog("row %d unreadable: %s %r" % (i, e, x))
            self.rows.append({"idx": i, "case": case, "act": x[1], "dt": t, "res": x[5], "raw": x,
                              "attrs": dict(zip(self.header[6:], x[6:]))})
        # microseconds since the first epoch of the file's own zone
        for r in self.rows:
            r["en"], r["st"], r["co"] = (us(d.replace(tzinfo=None) - dt.datetime(2001, 1, 1)) for d in r["dt"])

    def by_case(self):
        out = {}
        for r in self.rows:
            out.setdefault(r["case"], []).append(r)
        return out


class Result:
    pass


def simulate(sc, want_log=True, want_stats=True, keep=False, reseed=True, fixed=None, cwd_guard=True):
    """Runs prosimos' run_simulation on a scenario dict."""
    from prosimos.simulation_engine import run_simulation
    d = scratch()
    try:
        bp, jp = os.path.join(d, "m.bpmn"), os.path.join(d, "s.json")
        with open(bp, "w", encoding="utf-8") as f:
            f.write(sc["bpmn"])
        with open(jp, "w") as f:
            json.dump(sc["json"], f)
        od = os.path.join(d, "out")
        os.mkdir(od)
        lp, sp = os.path.join(od, "log.csv") if want_log else None, os.path.join(od, "stats.csv") if want_stats else None
        if reseed:
            seed(sc["seed"])
        old = os.getcwd()
        os.chdir(od)
        try:
            with quiet():
                ret = run_simulation(bp, jp, sc["n"], sp, lp, sc["start"], sc.get("log_events", True), fixed)
        except Exception as e:
            import traceback
            raise SimCrash("%s: %s" % (type(e).__name__, e) + " @ " + traceback.format_exc().strip().splitlines()[-3].strip())
        finally:
            os.chdir(old)
        res = Result()
        res.ret = ret
        res.log = Log(lp) if lp and fixed is None else None
        res.log_text = open(lp, newline="", encoding="utf-8").read() if lp else None
        res.stats_text = open(sp, newline="", encoding="utf-8").read() if sp else None
        w = os.path.join(od, "simulation_warnings.txt")
        res.warnings = open(w).read().splitlines() if os.path.exists(w) else None
        res.files = sorted(os.listdir(od))
        res.stats = parse_stats(res.stats_text) if res.stats_text else None
        if keep:
            res.dir = d
        return res
    finally:
        if not keep:
            shutil.rmtree(d, ignore_errors=True)


def parse_stats(text):
    """Sections of the statistics CSV: name -> list of rows"""
    out, cur = {}, None
    for row in csv.reader(io.StringIO(text)):
        if not any(row):
            cur = None
            continue
        if cur is None:
            cur = row[0]
            out[cur] = []
            if len(row) > 1:
                out[cur].append(row)
        else:
            out[cur].append(row)
    return out
