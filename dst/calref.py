"""Reference working-time calendar, in integer microseconds of local wall time."""
import datetime as dt

DAY = 86_400_000_000
WEEK = 7 * DAY
DAYS = ["MONDAY", "TUESDAY", "WEDNESDAY", "THURSDAY", "FRIDAY", "SATURDAY", "SUNDAY"]
EPOCH = dt.datetime(2000, 1, 3)  # a Monday


def us(d):
    """Naive local datetime -> integer microseconds since a Monday midnight."""
    delta = d - EPOCH
    return (delta.days * 86400 + delta.seconds) * 1_000_000 + delta.microseconds


def from_us(u):
    return EPOCH + dt.timedelta(microseconds=u)


def _tod(s):
    t = dt.time.fromisoformat(s)
    return ((t.hour * 60 + t.minute) * 60 + t.second) * 1_000_000 + t.microsecond


class Cal:
    def __init__(self, items):
        """items: [from_day, to_day, begin, end]; intervals never touch or overlap."""
        per = [[] for _ in range(7)]
        for f, t, b, e in items:
            i, j = DAYS.index(f), DAYS.index(t)
            while True:
                per[i % 7].append((_tod(b), _tod(e)))
                if i % 7 == j:
                    break
                i += 1
        self.per = [sorted(p) for p in per]
        self.weekly = sum(e - s for p in self.per for s, e in p)

    def _intervals_from(self, u):
        """Working intervals [s,e] (absolute us) whose end is >= u, in order, forever."""
        day = u // DAY
        while True:
            for s, e in self.per[day % 7]:
                if day * DAY + e >= u:
                    yield day * DAY + s, day * DAY + e
            day += 1

    def is_working(self, u):
        day, off = divmod(u, DAY)
        return any(s <= off <= e for s, e in self.per[day % 7])

    def in_open(self, u):
        """Strictly useful instant: work can be done right after u."""
        day, off = divmod(u, DAY)
        return any(s <= off < e for s, e in self.per[day % 7])

    def next_open(self, u):
        for s, e in self._intervals_from(u):
            if e > u:
                return max(s, u)

    def next_closed(self, u):
        return u if self.is_working(u) else self.next_open(u)

    def work(self, a, b):
        if b <= a:
            return 0
        total = 0
        weeks = (b - a) // WEEK
        if weeks > 1:
            total += (weeks - 1) * self.weekly
            a += (weeks - 1) * WEEK
        for s, e in self._intervals_from(a):
            if s >= b:
                break
            total += max(0, min(e, b) - max(s, a))
        return total

    def earliest_end(self, a, w):
        """Earliest instant E >= a with work(a, E) == w."""
        if w <= 0:
            return a
        if w > self.weekly:
            k = (w - 1) // self.weekly
            a += k * WEEK
            w -= k * self.weekly
        for s, e in self._intervals_from(a):
            room = e - max(s, a)
            if room <= 0:
                continue
            if w <= room:
                return max(s, a) + w
            w -= room

    def same_interval(self, a, b):
        for s, e in self._intervals_from(a):
            if s <= a <= b <= e:
                return True
            if s > a:
                return False


class OpenCal(Cal):
    """Intervals of whole hours, open at their end, which may touch each other."""
    def __init__(self, items):
        self.per = [[] for _ in range(7)]
        H = 3600_000_000
        for f, t, b, e in items:
            for i in range(DAYS.index(f), DAYS.index(t) + 1):
                self.per[i].append((b * H, e * H))
        self.per = [sorted(p) for p in self.per]
        self.weekly = sum(e - s for p in self.per for s, e in p)

    is_working = Cal.in_open
