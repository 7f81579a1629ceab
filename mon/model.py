"""The reference calendar: integers only, no code from the repository.

A year is a first day and a length; mon/data/years.json holds the first days
(as proleptic Gregorian ordinals of the standard library) of the years -1843
to 1162.  Check C01 compares that table with astronomy and with the published
tables, the other checks take it as given.
"""
import bisect
import datetime as _dt
import json
import os

_HERE = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(_HERE, 'data', 'years.json'), encoding='utf-8') as fh:
    _raw = json.load(fh)
FIRST = _raw['first']
START = {}
_o = _raw['start']
for _i, _c in enumerate(_raw['leap']):
    START[FIRST + _i] = _o
    _o += 365 + (_c == '1')
START[FIRST + len(_raw['leap'])] = _o
MIN, MAX = -1842, 1161
_YS = sorted(START)
_OS = [START[y] for y in _YS]
MAXORD = START[MAX + 1] - 1
MINORD = START[MIN]
# The three years in which the code adds one to the ordinal of every day.
FUDGE = (-1796, -1792, -1788)


def leap(y):
    return START[y + 1] - START[y] == 366


def ayyam(y):
    return 4 + leap(y)


def yday(y, m, d):
    """1 ... 366"""
    if m == 0:
        return 342 + d
    if m == 19:
        return 342 + ayyam(y) + d
    return (m - 1) * 19 + d


def ordinal(y, m, d):
    return START[y] + yday(y, m, d) - 1


def from_yday(y, n):
    if n <= 342:
        return y, (n - 1) // 19 + 1, (n - 1) % 19 + 1
    n -= 342
    if n <= ayyam(y):
        return y, 0, n
    return y, 19, n - ayyam(y)


def from_ordinal(o):
    y = _YS[bisect.bisect_right(_OS, o) - 1]
    return from_yday(y, o - START[y] + 1)


def weekday(o):
    """0 is Jalal (Saturday)"""
    return (o + 1) % 7


def long(y):
    return ((y - 1) // 361 + 1, (y - 1) % 361 // 19 + 1, (y - 1) % 19 + 1)


def short(k, v, y):
    return (k - 1) * 361 + (v - 1) * 19 + y


def week1(y):
    """Ordinal of the Jalal that begins week 1 (the week of Baha 4)."""
    o = START[y] + 3
    return o - weekday(o)


def isocal(o):
    y = from_ordinal(o)[0]
    if o < week1(y):
        y -= 1
    elif y + 1 in START and o >= week1(y + 1):
        y += 1
    return y, (o - week1(y)) // 7 + 1, weekday(o) + 1


def weeks(y):
    return (week1(y + 1) - week1(y)) // 7


def gdate(o):
    """Proleptic Gregorian (y, m, d) of an ordinal, also before the year 1."""
    if o >= 1:
        d = _dt.date.fromordinal(o)
        return d.year, d.month, d.day
    n = -(-(1 - o) // 146097)
    d = _dt.date.fromordinal(o + n * 146097)
    return d.year - 400 * n, d.month, d.day


def months(y):
    return [(m, 19) for m in range(1, 19)] + [(0, ayyam(y)), (19, 19)]


def days(y):
    for m, n in months(y):
        for d in range(1, n + 1):
            yield y, m, d


def edge_days(y):
    """The days of a year at which arithmetic tends to go wrong."""
    a = ayyam(y)
    return [(y, 1, 1), (y, 1, 2), (y, 1, 19), (y, 2, 1), (y, 9, 19),
            (y, 10, 1), (y, 17, 19), (y, 18, 1), (y, 18, 18), (y, 18, 19),
            (y, 0, 1), (y, 0, 2), (y, 0, 3), (y, 0, a - 1), (y, 0, a),
            (y, 19, 1), (y, 19, 2), (y, 19, 18), (y, 19, 19)]


REFORM = _dt.date(1582, 10, 15).toordinal()


def julian_shift(o):
    """Days from the proleptic Gregorian day o to the day with the same
    calendar label that was in use (before the reform, the Julian one)."""
    if o >= REFORM:
        return 0
    y, m, d = gdate(o)
    a = (14 - m) // 12
    y, m = y + 4800 - a, m + 12 * a - 3
    jdn = d + (153 * m + 2) // 5 + 365 * y + y // 4 - 32083
    return jdn - (o + 1721425)
