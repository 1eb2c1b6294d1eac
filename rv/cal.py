"""Independent weekly-calendar arithmetic (closed intervals, wall clock), integer microseconds."""
import datetime as dt
import bisect

DAYS = ["MONDAY", "TUESDAY", "WEDNESDAY", "THURSDAY", "FRIDAY", "SATURDAY", "SUNDAY"]
DAY = 86_400_000_000
WEEK = 7 * DAY
EPOCH = dt.datetime(2001, 1, 1)  # a Monday


def us(td):
    return (td.days * 86400 + td.seconds) * 1_000_000 + td.microseconds


def _tod(s):
    parts = s.split(":")
    h, m = int(parts[0]), int(parts[1])
    x = float(parts[2]) if len(parts) > 2 else 0.0
    return (h * 3600 + m * 60) * 1_000_000 + round(x * 1_000_000)


class Cal:
    def __init__(self, periods):
        iv = []
        for p in periods:
            a, b = DAYS.index(p["from"]), DAYS.index(p["to"])
            d = a
            while True:
                s, e = _tod(p["beginTime"]), _tod(p["endTime"])
                if e > s:
                    iv.append((d * DAY + s, d * DAY + e))
                if d == b:
                    break
                d = (d + 1) % 7
        iv.sort()
        out = []
        for s, e in iv:
            if out and s <= out[-1][1]:
                out[-1][1] = max(out[-1][1], e)
            else:
                out.append([s, e])
        self.iv = [tuple(x) for x in out]
        self.starts = [x[0] for x in self.iv]
        self.cum = [0]
        for s, e in self.iv:
            self.cum.append(self.cum[-1] + e - s)
        self.weekly = self.cum[-1]

    @staticmethod
    def pos(t):
        return us(t.replace(tzinfo=None) - EPOCH)

    def dist(self, t):
        """distance (us) from t to the nearest working instant (0 if working)"""
        p = self.pos(t) % WEEK
        best = WEEK
        for s, e in self.iv:
            for k in (-WEEK, 0, WEEK):
                if s + k <= p <= e + k:
                    return 0
                best = min(best, abs(p - s - k), abs(p - e - k))
        return best

    def next_work(self, t):
        p = self.pos(t)
        w, r = divmod(p, WEEK)
        for s, e in self.iv:
            if r <= e:
                return t + dt.timedelta(microseconds=max(0, s - r))
        return t + dt.timedelta(microseconds=WEEK + self.iv[0][0] - r)

    def _acc(self, p):
        w, r = divmod(p, WEEK)
        i = bisect.bisect_right(self.starts, r) - 1
        tot = w * self.weekly
        if i >= 0:
            s, e = self.iv[i]
            tot += self.cum[i] + min(r, e) - s
        return tot

    def work(self, a, b):
        """working time (us) in [a, b]"""
        if b <= a:
            return 0
        return self._acc(self.pos(b)) - self._acc(self.pos(a))

    def boundaries_near(self, t, tol):
        p = self.pos(t) % WEEK
        for s, e in self.iv:
            for x in (s, e):
                d = abs(p - x)
                if min(d, WEEK - d) <= tol:
                    return True
        return False
