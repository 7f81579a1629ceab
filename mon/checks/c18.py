"""Time zones: timezone, TZWithCoords, and the constants."""
import copy
import datetime as dt
import pickle
from zoneinfo import ZoneInfo

from ..api import (D, M, PLACES, day, gap, hms, is_fudge, mkdt, place, usec,
                   ymd)

PROP = 'C18'
RULE = ('cases are (offset, name), (coordinates, key), (IANA zone, moment); '
        'the oracle is integer arithmetic on the offsets and, for summer '
        'time, the zone database; distinct: the zones')
ASSUMPTIONS = ['the summer time of a TZWithCoords from a ZoneInfo is the one '
               'the zone database gives for the same argument',
               'a badi datetime is handed to ZoneInfo only for years whose '
               'ordinals are those of the standard library']
REQUIRED = {'offset': 10000, 'name': 5000, 'equal': 5000, 'fromutc': 3000,
            'refused': 5000, 'coords': 5000, 'zoneinfo': 2000,
            'constants': 60, 'independent': 2000, 'pickle': 5000}
IANA = ('UTC', 'Asia/Tehran', 'America/New_York', 'Europe/London',
        'Australia/Sydney', 'Asia/Kathmandu', 'Pacific/Apia', 'US/Eastern',
        'America/Los_Angeles', 'Europe/Berlin', 'Africa/Cairo')
DAY = 86400 * 10 ** 6


def offset(rng):
    r = rng.random()
    if r < 0.1:
        return 0
    if r < 0.35:
        return 3600 * rng.randint(-23, 23) * 10 ** 6
    if r < 0.6:
        return 60 * rng.randint(-1439, 1439) * 10 ** 6
    if r < 0.8:
        return rng.randint(-86399, 86399) * 10 ** 6
    return rng.choice((rng.randint(-DAY + 1, DAY - 1), DAY - 1, 1 - DAY, 1,
                       -1, 10 ** 6, -10 ** 6, 999999, -999999))


def moment(rng):
    while True:
        d = day(rng)
        if not (gap(d) or is_fudge(d[0]) or d[0] in (M.MIN, M.MAX)):
            return d, [*hms(rng), usec(rng)]


def gen(rng, tier, part, parts):
    yield ['constants']
    for i in range(150 if tier == 'quick' else 5000):
        name = rng.choice((None, None, '', 'A', 'Tehran', 'UTC', 'q' * 40,
                           'Ṭihrán', '+01:00', ' '))
        yield ['fixed', offset(rng), offset(rng), name, *moment(rng),
               rng.randrange(4)]
        p = list(place(rng, 89))
        r = rng.random()
        if r < 0.15:
            p[2] = None
        elif r < 0.3:
            p[2] = rng.choice((0, 0.0, 5.75, -9.5, 23.5, -23.5, 1 / 3, 12,
                               -12, 14, 3.5, -0.25))
        yield ['coords', p, rng.choice((None, '', 'Key', 'Asia/Tehran',
                                        'Ṭihrán')), *moment(rng),
               rng.randrange(4)]
        if i % 2 == 0:
            yield ['zoneinfo', rng.choice(IANA), rng.choice(IANA),
                   rng.randint(1950, 2037), rng.randint(1, 12),
                   rng.randint(1, 28), rng.randrange(24)]


def run(rec, case):
    globals()['run_' + case[0]](rec, *case[1:])


def utc_name(us):
    """UTC+HH:MM[:SS[.ffffff]]"""
    if us == 0:
        return 'UTC'
    s, f = divmod(abs(us), 10 ** 6)
    r = f'UTC{"-" if us < 0 else "+"}{s // 3600:02}:{s // 60 % 60:02}'
    if f or s % 60:
        r += f':{s % 60:02}'
    return r + (f'.{f:06}' if f else '')


def td(us):
    return dt.timedelta(microseconds=us)


def run_fixed(rec, a, b, name, d, t, form):
    d = tuple(d)
    z = D.timezone(td(a)) if name is None else D.timezone(td(a), name)
    rec.state(a, name)
    x = mkdt(d, t, form & 1, z, fold=form >> 1)
    ti = D.time(*t, z)
    for arg in (None, x):
        rec.eq('offset', (z.utcoffset(arg), z.badioffset(arg)),
               (td(a), td(a) - dt.timedelta(hours=3.5)), f'{a}')
        rec.eq('name', z.tzname(arg), utc_name(a) if name is None else name,
               f'{a} {name}')
    if not (a == 0 and name is None):
        rec.eq('name', (str(z), z.dst(None), z.dst(x)),
               (utc_name(a) if name is None else name, None, None), f'{a}')
    rec.eq('offset', (x.utcoffset(), x.tzname(), ti.utcoffset(), ti.tzname()),
           (td(a), z.tzname(None)) * 2, f'{x!r}')
    # Equal offsets, whatever the name.
    y = D.timezone(td(b), 'other')
    rec.eq('equal', (z == y, z != y, y == z), (a == b, a != b, a == b),
           f'{a} {b}')
    y = D.timezone(td(a), 'other')
    rec.eq('equal', (z == y, z != y, hash(z) == hash(y), len({z, y})),
           (True, False, True, 1), f'{a}')
    rec.expect(z != 5 and z != td(a) and not z == 'UTC' and z is not None,
               'equal', 'unlike', f'{z!r}')
    rec.eq('equal', (z is D.timezone.utc, D.timezone(td(a)) is D.UTC),
           (a == 0 and name is None, a == 0), f'{a}')
    # From UTC.
    n = (M.ordinal(*d) * DAY + ((t[0] * 60 + t[1]) * 60 + t[2]) * 10 ** 6
         + t[3] + a)
    o, u = divmod(n, DAY)
    w = M.from_ordinal(o)
    if not (gap(w) or is_fudge(w[0])):
        r = z.fromutc(x)
        s = u // 10 ** 6
        rec.eq('fromutc', (ymd(r), r.b_time, r.tzinfo is z, r.is_short),
               (w, (s // 3600, s // 60 % 60, s % 60, u % 10 ** 6), True,
                x.is_short), f'{x!r}')
    rec.raises('refused', ValueError, z.fromutc, x.replace(tzinfo=None))
    rec.raises('refused', ValueError, z.fromutc, x.replace(
        tzinfo=D.timezone(td(a), 'twin')))
    for bad in (5, 'x', ti, dt.datetime(2024, 1, 1), D.date(*d), td(1)):
        for f in (z.utcoffset, z.badioffset, z.tzname, z.fromutc):
            rec.raises('refused', TypeError, f, bad)
    if a or name is not None:
        rec.raises('refused', TypeError, z.dst, 5)
    rec.raises('refused', TypeError, lambda: z < y)
    for p in range(pickle.HIGHEST_PROTOCOL + 1):
        q = pickle.loads(pickle.dumps(z, p))
        rec.eq('pickle', (q, q.utcoffset(None), q.tzname(None), type(q)),
               (z, td(a), z.tzname(None), type(z)), f'{z!r}')


def run_coords(rec, p, key, d, t, form):
    d = tuple(d)
    lat, lon, zone = p
    z = D.TZWithCoords(lat, lon, zone, key=key)
    rec.state(p, key)
    off = dt.timedelta(hours=zone or 0)
    us = off // dt.timedelta(microseconds=1)
    name = key or utc_name(us)
    key = key or ''

    def look(v):
        return (v.coordinates, v.lat, v.lon, v.zone, v.key,
                v.utcoffset(None), v.badioffset(None), v.tzname(None),
                v.dst(None), str(v), type(v))

    want = ((lat, lon, zone), lat, lon, zone, key, off,
            off - dt.timedelta(hours=3.5), name, dt.timedelta(0),
            f'{lat}, {lon}, {zone}' + (f', {key}' if key else ''),
            D.TZWithCoords)
    rec.eq('coords', look(z), want, f'{p} {key!r}')
    # Another one changes nothing.
    other = D.TZWithCoords(-lat, -lon, 7, key='other')
    rec.eq('independent', look(z), want, f'{p} {key!r}')
    rec.eq('independent', (other.coordinates, other.tzname(None)),
           ((-lat, -lon, 7), 'other'), f'{p}')
    f = D.timezone(off, 'fixed')
    rec.eq('equal', (z == f, f == z, hash(z) == hash(f), z != f),
           (True, True, True, False), f'{p}')
    rec.eq('equal', z == other, off == dt.timedelta(hours=7), f'{p}')
    x = mkdt(d, t, form & 1, z)
    rec.eq('offset', (x.utcoffset(), x.dst(), x.tzname(),
                      x.timetz().utcoffset(), x.tzinfo is z),
           (off, dt.timedelta(0), name, off, True), f'{x!r}')
    y = x.replace(tzinfo=f)
    rec.eq('equal', (x == y, x < y, x > y, hash(x) == hash(y)),
           (True, False, False, True), f'{x!r} {y!r}')
    for q in [pickle.loads(pickle.dumps(z, k)) for k in range(
            pickle.HIGHEST_PROTOCOL + 1)] + [copy.copy(z), copy.deepcopy(z)]:
        rec.eq('pickle', look(q), want, f'{p} {key!r}')
    q = pickle.loads(pickle.dumps(x))
    rec.eq('pickle', (q, look(q.tzinfo)), (x, want), f'{x!r}')
    rec.raises('refused', ValueError, D.TZWithCoords, lat, lon, 24)
    rec.raises('refused', ValueError, D.TZWithCoords, lat, lon, -24.5)
    rec.raises('refused', TypeError, D.TZWithCoords, lat, lon, 'x')
    rec.raises('refused', TypeError, D.TZWithCoords, lat, lon, 1, key=5)


def run_zoneinfo(rec, iana, iana2, gy, gm, gd, h):
    zi, zi2 = ZoneInfo(iana), ZoneInfo(iana2)
    p, q = PLACES['Raleigh'], PLACES['Haifa']
    z = D.TZWithCoords.fromzoneinfo(zi, *p)
    rec.state(iana)
    g = dt.datetime(gy, gm, gd, h)
    zero = dt.timedelta(0)

    def look(v):
        return v.coordinates, v.key, v.tzname(None), v.utcoffset(None), \
            v.dst(g), v.dst(None)

    want = (p, iana, iana, dt.timedelta(hours=-5), zi.dst(g) or zero, zero)
    rec.eq('zoneinfo', look(z), want, f'{iana} {g}')
    plain = D.TZWithCoords(*q, key='plain')
    w = D.TZWithCoords.fromzoneinfo(zi2, *q)
    rec.eq('independent', look(z), want, f'{iana} after {iana2}')
    rec.eq('independent', (w.key, w.dst(g), plain.dst(g), D.UTC.dst(g)),
           (iana2, zi2.dst(g) or zero, zero, zero), f'{iana} and {iana2}')
    # The Badi datetime of the same count of days.
    b = M.from_ordinal(g.toordinal())
    x = D.datetime(*b, None, None, h, tzinfo=z)
    rec.eq('zoneinfo', x.dst(), zi.dst(g) or zero, f'{x!r}')
    tt = x.timetuple()
    rec.eq('zoneinfo', (tt.tm_isdst, tt.tm_zone, tt.tm_gmtoff),
           (int(bool(zi.dst(g))), iana, -18000.0), f'{x!r}')
    for v in [pickle.loads(pickle.dumps(z, k)) for k in range(
            pickle.HIGHEST_PROTOCOL + 1)] + [copy.copy(z), copy.deepcopy(z)]:
        rec.eq('pickle', look(v), want, f'{iana}')


def run_constants(rec):
    h = dt.timedelta(hours=1)
    m = dt.timedelta(minutes=1)
    rec.eq('constants', (D.UTC is D.timezone.utc, D.BADI is D.timezone.badi,
                         D.UTC.utcoffset(None), D.BADI.utcoffset(None),
                         D.BADI.badioffset(None), D.UTC.badioffset(None)),
           (True, True, 0 * h, 3.5 * h, 0 * h, -3.5 * h), 'offsets')
    rec.eq('constants', (D.UTC.coordinates, D.BADI.coordinates,
                         D.UTC.tzname(None), D.BADI.tzname(None)),
           ((51.477928, -0.001545, 0), (35.69435, 51.288701, 3.5), 'UTC',
            'Asia/Tehran'), 'coordinates')
    rec.eq('constants', (D.timezone.min.utcoffset(None),
                         D.timezone.max.utcoffset(None)),
           (m - 24 * h, 24 * h - m), 'limits')
    rec.eq('constants', (eval(repr(D.UTC), {'badidatetime': D}) is D.UTC,
                         eval(repr(D.BADI), {'badidatetime': D}) is D.BADI),
           (True, True), 'repr')
    for z in (D.UTC, D.BADI):
        q = pickle.loads(pickle.dumps(z))
        rec.eq('constants', (q == z, q.coordinates, q.tzname(None)),
               (True, z.coordinates, z.tzname(None)), 'pickle')
