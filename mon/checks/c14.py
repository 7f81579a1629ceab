"""POSIX timestamps of date and datetime objects."""
import datetime as dt
import math
import time

from .. import astro
from ..api import BC, CENTURIES, D, M, PLACES, TEHRAN, day, gap, hms, \
    is_fudge, mkdt, place, usec, ymd

PROP = 'C14'
RULE = ('cases are (timestamp), (timestamp, place), (date, time); the oracle '
        'is an independent model of the sunset on the standard library '
        'count of days (to 120 s at the equator, 480 s at 60 degrees of latitude) and the conservation of elapsed seconds '
        '(to 5 ms); distinct: the timestamps')
ASSUMPTIONS = ['the local coordinates are those of Tehran, the default',
               'round trips leave out the first and last three minutes of a '
               'day, where days differ from 24 hours (C04)']
REQUIRED = {'sunset': 5000, 'round-trip': 3000, 'place': 2000, 'order': 3000,
            'date': 3000, 'elapsed': 2000, 'aware': 2000, 'now': 100}
S = 86400
T_MIN = (M.MINORD + 3 - 719163) * S
T_MAX = (M.MAXORD - 3 - 719163) * S
TOL = 0.005
EPOCH = (126, 16, 2), (7, 59, 32, 492400)


def gen(rng, tier, part, parts):
    for i in range(80 if tier == 'quick' else 1900):
        r = rng.random()
        if r < 0.4:
            t = rng.uniform(T_MIN, T_MAX)
        elif r < 0.8:
            t = rng.uniform(-4e9, 6e9)
        elif r < 0.9:
            t = rng.choice((0, -1, 1, 0.5, -0.25, 10 ** 9, 2 ** 31 - 1,
                            2 ** 31, -2 ** 31, 2 ** 32, rng.randint(-90000,
                                                                    90000)))
        else:
            # Near a sunset.
            o = rng.randint(M.MINORD + 400, M.MAXORD - 400)
            t = sunset(o, *TEHRAN) + rng.uniform(-300, 300)
        yield ['stamp', t, rng.uniform(0.001, 3e5)]
        p = place(rng)
        yield ['place', t, p]
        d = day(rng)
        yield ['date', d, [*hms(rng, late=0.03), usec(rng)], rng.randint(-86399, 86399)]
        if i % 32 == 0:
            yield ['now']


def run(rec, case):
    globals()['run_' + case[0]](rec, *case[1:])


def sunset(o, lat, lon, zone=0):
    """The timestamp of the sunset of the Gregorian day o.

    Before the reform the code takes the Sun of the Julian calendar day with
    the same label, so that the year keeps its seasons."""
    n = M.julian_shift(o)
    jd = astro.event(o + n + 1721425.0 - lon / 360, lat, lon, 'set') - n
    return (jd - 2440587.5) * S


def secs(t):
    return t[0] * 3600 + t[1] * 60 + t[2] + t[3] / 1e6


def near_leap_day(d):
    return d[0] in CENTURIES and d[1] in (17, 18, 0, 19)


def odd(d):
    return gap(d) or near_leap_day(d)


def against_sun(rec, event, t, d, tm, p, text):
    """The elapsed time since the sunset is the time of the day."""
    if odd(d):
        return
    e = t - sunset(M.ordinal(*d), *p) - secs(tm)
    tol = 120 / math.cos(math.radians(p[0])) ** 2
    rec.expect(abs(e) < tol, event, event,
               lambda: f'{text}: {d} {tm} is {e:.1f} s off the sunset')


def run_stamp(rec, t, step):
    x = D.datetime.fromtimestamp(t)
    rec.state(t)
    d, tm = ymd(x), x.b_time
    rec.eq('type', (type(x), x.tzinfo, x.is_short), (D.datetime, None, True),
           f'fromtimestamp({t})')
    rec.eq('type', [type(v) for v in tm], [int] * 4, f'fromtimestamp({t})')
    against_sun(rec, 'sunset', t, d, tm, TEHRAN, f'fromtimestamp({t})')
    b = BC.badi_date_from_timestamp(t, *TEHRAN, us=True, short=True)
    rec.eq('calendar', (tuple(b[:3]), tuple(b[3:])), (d, tm), f'{t}')
    lg = D.datetime.fromtimestamp(t, short=False)
    rec.eq('date', (ymd(lg), lg.b_time, lg.is_short), (d, tm, False),
           f'long fromtimestamp({t})')
    for s in (True, False):
        y = D.date.fromtimestamp(t, short=s)
        rec.eq('date', (ymd(y), y.is_short, type(y)), (d, s, D.date),
               f'date.fromtimestamp({t})')
    if odd(d):
        return
    if 180 < secs(tm) < S - 180:
        back = x.timestamp()
        rec.expect(abs(back - t) < TOL, 'round-trip', 'round-trip',
                   lambda: f'fromtimestamp({t}) = {x!r}, its timestamp is '
                   f'{back}')
        rec.expect(lg.timestamp() == back, 'round-trip', 'round-trip',
                   lambda: f'{lg!r} {lg.timestamp()}, {x!r} {back}')
        # Other timestamps.
        u = t + step
        if u < T_MAX:
            z = D.datetime.fromtimestamp(u)
            if not odd(ymd(z)) and not is_fudge(d[0]):
                rec.expect(z > x or step < 0.004 and z >= x, 'order',
                           'order', lambda: f'{u}: {z!r}, {t}: {x!r}')


def run_place(rec, t, p):
    p = tuple(p)
    tz = D.TZWithCoords(*p, key='P')
    x = D.datetime.fromtimestamp(t, tz)
    d, tm = ymd(x), x.b_time
    rec.eq('place', x.tzinfo is tz, True, f'{p}')
    against_sun(rec, 'place', t, d, tm, p, f'fromtimestamp({t}) at {p}')
    b = BC.badi_date_from_timestamp(t, *p, us=True, short=True)
    rec.eq('calendar', (tuple(b[:3]), tuple(b[3:])), (d, tm), f'{t} {p}')
    if not odd(d) and 180 < secs(tm) < S - 180:
        back = BC.timestamp_from_badi_date(d + tm, *p)
        rec.expect(abs(back - t) < TOL, 'round-trip', 'round-trip',
                   lambda: f'{t} at {p}: {x!r} is {back}')
    rec.raises('refused', TypeError, D.datetime.fromtimestamp, t, 5)


def run_date(rec, d, t, off):
    d, t = tuple(d), tuple(t)
    if odd(d) or not M.MIN < d[0] < M.MAX:
        return
    for short in (True, False):
        x = mkdt(d, t, short)
        ts = x.timestamp()
        against_sun(rec, 'sunset', ts, d, t, TEHRAN, f'{x!r}.timestamp()')
        zero = mkdt(d, (0, 0, 0, 0), short).timestamp()
        rec.expect(abs(ts - zero - secs(t)) < TOL, 'elapsed', 'elapsed',
                   lambda: f'{x!r} is {ts - zero} s after the sunset')
        rec.state(ts)
        if 180 < secs(t) < S - 180:
            y = D.datetime.fromtimestamp(ts, short=short)
            rec.expect(ymd(y) == d and abs(secs(y.b_time) - secs(t)) < TOL
                       and y.is_short == short, 'round-trip', 'round-trip',
                       lambda: f'{x!r}: {ts}: {y!r}')
        # An aware datetime: days of 24 hours from the epoch in Greenwich.
        if is_fudge(d[0]):
            continue
        for tz, o in ((D.timezone(dt.timedelta(seconds=off)), off),
                      (D.timezone.utc, 0), (D.BADI, 12600)):
            x = mkdt(d, t, short, tz)
            days = M.ordinal(*d) - M.ordinal(*EPOCH[0])
            want = (days * S + secs(t) - secs(EPOCH[1]) - o)
            rec.expect(abs(x.timestamp() - want) < 1e-4, 'aware', 'aware',
                       lambda: f'{x!r}: {x.timestamp()}, 24-hour days: '
                       f'{want}')
        e = sunset(M.ordinal(*d), 51.477928, -0.001545) + secs(t)
        u = mkdt(d, t, short, D.timezone.utc).timestamp()
        rec.ok('aware-utc')
        if abs(u - e) > 120:
            rec.bad('aware-timestamp-24h', f'{d} {t} in Greenwich: '
                    f'{u}, the Sun says {e:.0f}')


def run_now(rec):
    t0 = time.time()
    a, b, c = D.datetime.now(), D.date.today(), D.datetime.today()
    t1 = time.time()
    lo = D.datetime.fromtimestamp(t0 - 0.01)
    hi = D.datetime.fromtimestamp(t1 + 0.01)
    rec.expect(lo <= a <= hi and lo.date() <= b <= hi.date(), 'now', 'now',
               lambda: f'{lo!r} {a!r} {b!r} {hi!r}')
    rec.ok('now')
    cd = c.date() if isinstance(c, D.datetime) else c
    rec.expect(lo.date() <= cd <= hi.date(), 'now', 'now', lambda: f'{c!r}')
    tz = D.TZWithCoords(*PLACES['Sydney'])
    lo = D.datetime.fromtimestamp(time.time() - 0.01, tz)
    x = D.datetime.now(tz)
    hi = D.datetime.fromtimestamp(time.time() + 0.01, tz)
    rec.expect(lo <= x <= hi and x.tzinfo is tz, 'now', 'now',
               lambda: f'{lo!r} {x!r} {hi!r}')
    x = D.datetime.now(short=False)
    rec.eq('now', (x.is_short, D.date.today(short=False).is_short),
           (False, False), 'forms')
