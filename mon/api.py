"""The code under test, and ways to draw inputs for it."""
import datetime as dt
import importlib

import badidatetime as B

D = importlib.import_module('badidatetime.datetime')
T = importlib.import_module('badidatetime._timedateutils')._td_utils
SP = importlib.import_module('badidatetime._strptime')
ST = importlib.import_module('badidatetime._structures')
BC = B.BahaiCalendar()
GC = B.GregorianCalendar()

from . import model as M  # noqa: E402

TEHRAN = (35.69435, 51.288701, 3.5)
# name: latitude, longitude, zone
PLACES = {
    'Tehran': TEHRAN, 'GMT': (51.477928, -0.001545, 0.0),
    'Haifa': (32.82, 34.99, 2), 'Raleigh': (35.7796, -78.6382, -5),
    'New York': (40.7128, -74.006, -5), 'Los Angeles': (34.05, -118.24, -8),
    'Sydney': (-33.87, 151.21, 10), 'Apia': (-13.83, -171.77, 13),
    'Auckland': (-36.85, 174.76, 12), 'Quito': (-0.18, -78.47, -5),
    'Wilmette': (42.07, -87.68, -6), 'Oslo': (59.91, 10.75, 1),
    'Ushuaia': (-54.8, -68.3, -3), 'Honolulu': (21.31, -157.86, -10),
    'Kathmandu': (27.7, 85.32, 5.75), 'Nairobi': (-1.29, 36.82, 3)}

# The years in which a Julian leap day has no Gregorian twin.
CENTURIES = (-1744, -1644, -1544, -1344, -1244, -1144, -944, -844, -744,
             -544, -444, -344, -261)


def year(rng):
    """A year; the ends and the odd ones more often than chance."""
    r = rng.random()
    if r < 0.55:
        return rng.randint(M.MIN, M.MAX)
    if r < 0.8:
        return rng.randint(100, 300)
    if r < 0.87:
        return rng.randint(-40, 40)
    if r < 0.91:
        return rng.choice(CENTURIES) + rng.randint(-1, 1)
    if r < 0.94:
        return rng.choice((M.MIN, M.MIN + 1, M.MIN + 2, M.MAX - 2, M.MAX - 1,
                           M.MAX))
    if r < 0.97:
        k = rng.randint(-4, 3) * 361
        return min(max(k + rng.randint(-1, 2), M.MIN), M.MAX)
    return min(max(rng.randint(-96, 61) * 19 + rng.randint(-1, 2), M.MIN),
               M.MAX)


def day(rng, y=None):
    """A date (y, m, d), often at an edge."""
    y = year(rng) if y is None else y
    r = rng.random()
    if r < 0.5:
        return M.from_yday(y, rng.randint(1, 365 + M.leap(y)))
    if r < 0.75:
        return rng.choice(M.edge_days(y))
    if r < 0.9:
        return y, 0, rng.randint(1, M.ayyam(y))
    m = rng.choice((1, 2, 18, 19))
    return y, m, rng.choice((1, 2, 18, 19))


def hms(rng, top=24, late=0):
    """An hour, minute, and second; often at an edge.

    late: the share of times in the hour 24, the end of a long day
    """
    def one(n):
        r = rng.random()
        return 0 if r < 0.1 else n - 1 if r < 0.2 else rng.randrange(n)
    if late and rng.random() < late:
        return 24, rng.choice((0, 0, 1)), one(60)
    return one(top), one(60), one(60)


def usec(rng):
    r = rng.random()
    if r < 0.25:
        return 0
    if r < 0.35:
        return rng.choice((1, 9, 10, 99, 999, 1000, 9999, 10000, 99999,
                           100000, 500000, 999999))
    return rng.randrange(1000000)


def is_fudge(y):
    return y in M.FUDGE


def gap(date):
    """The Badi days that fall in the ten days the reform dropped."""
    return date[0] == -261 and date[1] == 11 and 9 <= date[2] <= 19


def long_of(date):
    return M.long(date[0]) + tuple(date[1:3])


def mk(date, short=True, cls=None):
    cls = cls or D.date
    return cls(*date) if short else cls(*long_of(date))


def mkdt(date, time=(0, 0, 0, 0), short=True, tz=None, fold=0):
    if short:
        return D.datetime(*date, None, None, *time, tzinfo=tz, fold=fold)
    return D.datetime(*long_of(date), *time, tzinfo=tz, fold=fold)


def ymd(obj):
    """(y, m, d) of a date object of either form, by the public fields."""
    if obj.is_short:
        return obj.year, obj.month, obj.day
    return (M.short(obj.kull_i_shay, obj.vahid, obj.year), obj.month,
            obj.day)


def place(rng, top=60):
    """(lat, lon, zone)"""
    if rng.random() < 0.5:
        return PLACES[rng.choice(sorted(PLACES))]
    lon = round(rng.uniform(-179.9, 179.9), 4)
    lat = round(rng.uniform(-top, top), 4)
    r = rng.random()
    if r < 0.08:
        lat = rng.choice((0, 0.0))
    elif r < 0.16:
        lon = rng.choice((0, 0.0))
    elif r < 0.24:
        lat, lon = round(lat), round(lon)
    return lat, lon, rng.choice((float, int))(round(lon / 15))


class Turn(dt.tzinfo):
    """
    A zone whose offset changes once, as PEP 495 describes it. The clock of
    the offset before shows `at` (microseconds since ordinal 0) when it
    changes. The offsets are in seconds.
    """

    def __init__(self, at, before, after):
        self.at, self.before, self.after = at, before, after
        d = (after - before) * 10 ** 6
        self.lo, self.hi = min(at, at + d), max(at, at + d)

    @staticmethod
    def count(w):
        return w.toordinal() * 86400 * 10 ** 6 + (
            (w.hour * 60 + w.minute) * 60 + w.second) * 10 ** 6 \
            + w.microsecond

    def double(self, w):
        """Whether the fold of this moment matters."""
        return self.lo <= self.count(w) < self.hi

    def later(self, w):
        return bool(w.fold) if self.double(w) else self.count(w) >= self.hi

    def seconds(self, w):
        return self.after if self.later(w) else self.before

    def utcoffset(self, w):
        return None if w is None else dt.timedelta(seconds=self.seconds(w))

    def dst(self, w):
        return None if w is None else dt.timedelta(
            seconds=self.seconds(w) - min(self.before, self.after))

    def tzname(self, w):
        return None if w is None else 'After' if self.later(w) else 'Before'

    def fromutc(self, w):
        n = self.count(w) - (self.at - self.before * 10 ** 6)
        o = self.before if n < 0 else self.after
        fold = 0 <= n < (self.before - self.after) * 10 ** 6
        return (w + dt.timedelta(seconds=o)).replace(fold=int(fold))


def moment(d, t):
    """The microseconds from ordinal 0 to this date and time."""
    return ((M.ordinal(*d) * 24 + t[0]) * 60 + t[1]) * 60 * 10 ** 6 \
        + t[2] * 10 ** 6 + t[3]


def turn(rng, n, step=1):
    """A zone that turns near the moment n, in microseconds."""
    before = rng.randint(-11 * 3600 // step, 11 * 3600 // step) * step
    k = rng.choice((3600, -3600, 3600, -3600, 7200, -7200, 10800, -10800))
    # At a whole second, as clocks do.
    at = n // 10 ** 6 * 10 ** 6 + 10 ** 6 * rng.choice((
        0, 1, -1, k // 2, -k // 2, k, -k, rng.randint(-80000, 80000)))
    return Turn(at, before, before + k)


def guarded(fn, *a, **k):
    """('ok', value) or ('error', type name)"""
    try:
        return 'ok', fn(*a, **k)
    except Exception as e:
        return 'error', type(e).__name__
