"""The local place: set_local_coordinates and what depends on it."""
import datetime as dt
import os
import time
from zoneinfo import ZoneInfo

import tzlocal

from .. import astro
from ..api import B, BC, D, PLACES, TEHRAN, is_fudge, place, ymd

PROP = 'C25'
RULE = ('cases are histories of set_local_coordinates in several system time '
        'zones with conversions in between; the oracle is the same '
        'conversion with the place given, and the zone database; distinct: '
        'the (zone, place) pairs')
ASSUMPTIONS = ['the offset of the system zone is the one at the present '
               'moment, as the code takes it',
               'looking up a locale by name needs the network and is not '
               'observed']
REQUIRED = {'coords': 2000, 'zone': 2500, 'naive': 5000, 'inverse': 5000,
            'now': 1000, 'explicit': 5000, 'constant': 2500, 'default': 200,
            'sunset': 2500, 'exported': 2500, 'whole': 100, 'local': 500}
ZONES = ('UTC', 'Asia/Tehran', 'America/New_York', 'Europe/London',
         'Australia/Sydney', 'Asia/Kathmandu', 'Pacific/Apia',
         'America/Los_Angeles', 'Africa/Nairobi', 'America/St_Johns',
         'Pacific/Marquesas', 'Asia/Tokyo')
LO, HI = -61000000000, 32000000000
EPOCH = 2440587.5


def gen(rng, tier, part, parts):
    for i in range(14 if tier == 'quick' else 380):
        steps = []
        for j in range(rng.randint(2, 5)):
            r = rng.random()
            lat, lon, _ = place(rng, 58)
            if r < 0.1:
                p = None
            elif r < 0.25:
                p = [int(lat), int(lon)]
            elif r < 0.3:
                p = [0.0, 0.0]
            else:
                p = [lat, lon]
            ts = [round(rng.uniform(LO, HI) if rng.random() < 0.5 else
                        rng.uniform(0, 4e9), 3) for _ in range(3)]
            # Not the days that the reform of the calendar dropped.
            steps.append([p, [t for t in ts if not
                              2299140 < t / 86400 + 2440585.5 < 2299165]])
        yield ['history', rng.choice(ZONES), steps, sorted(PLACES)[
            rng.randrange(len(PLACES))]]


def run(rec, case):
    globals()['run_' + case[0]](rec, *case[1:])


def system_zone(name):
    os.environ['TZ'] = name
    time.tzset()
    tzlocal.reload_localzone()


def run_history(rec, zone, steps, other):
    try:
        system_zone(zone)
        for p, ts in steps:
            run_step(rec, zone, p, ts, other)
    finally:
        system_zone('UTC')
        B.set_local_coordinates()
    rec.eq('default', (B.LOCAL_COORD, D.LOCAL_COORD), (TEHRAN, TEHRAN),
           'afterwards')


def run_step(rec, zone, p, ts, other):
    rec.state(zone, p)
    off = dt.datetime.now(ZoneInfo(zone)).utcoffset().total_seconds() / 3600
    w = f'TZ={zone}, {p}'
    if p is None:
        B.set_local_coordinates()
        want = TEHRAN
        rec.eq('default', D.LOCAL_COORD, TEHRAN, w)
    else:
        B.set_local_coordinates(*p)
        want = (*p, off)
        rec.eq('coords', D.LOCAL_COORD, want, w)
        if isinstance(p[0], int):
            rec.ok('whole')
    rec.eq('exported', B.LOCAL_COORD, D.LOCAL_COORD, w)
    rec.expect(B.LOCAL is D.LOCAL is D.timezone.local is B.timezone.local,
               'exported', 'exported', w)
    rec.eq('zone', D.LOCAL.utcoffset(None), dt.timedelta(hours=want[2]), w)
    # What does not depend on the local place.
    rec.eq('constant', (D.UTC.coordinates, D.BADI.coordinates, D.BADI_COORD,
                        D.UTC.utcoffset(None)),
           (D.GMT_COORD, TEHRAN, TEHRAN, dt.timedelta(0)), w)
    here = D.TZWithCoords(*want)
    tz = D.TZWithCoords(*PLACES[other])
    for t in ts:
        loc = BC.badi_date_from_timestamp(t, *want, us=True, short=True)
        for short in (True, False):
            b = D.datetime.fromtimestamp(t, short=short)
            lg = BC.badi_date_from_timestamp(t, *want, us=True, short=short)
            rec.eq('naive', tuple(b.b_date) + tuple(b.b_time), tuple(lg),
                   f'{w}: {t}')
            rec.eq('naive', b.tzinfo, None, w)
            a = D.datetime.fromtimestamp(t, here, short=short)
            rec.eq('naive', a.replace(tzinfo=None), b, f'{w}: {t}')
            rec.eq('naive', tuple(D.date.fromtimestamp(
                t, short=short).b_date), tuple(b.b_date), f'{w}: {t}')
            ts1 = b.timestamp()
            if loc[3:5] > (0, 3) and loc[3] < 24 and not odd(t):
                rec.expect(abs(ts1 - t) < 0.01, 'inverse', 'inverse',
                           lambda: f'{w}: {t} is {b}, its timestamp {ts1}')
            # Another place gives its own answer at any time.
            o = D.datetime.fromtimestamp(t, tz, short=short)
            rec.eq('explicit', tuple(o.b_date) + tuple(o.b_time),
                   tuple(BC.badi_date_from_timestamp(
                       t, *PLACES[other], us=True, short=short)),
                   f'{w}: {t} in {other}')
        if t is ts[-1] and not (odd(t) or is_fudge(ymd(b)[0])):
            o = D.LOCAL.utcoffset(None)
            u = b.astimezone(D.timezone.utc)
            rec.eq('local', (u.replace(tzinfo=None), u.utcoffset()),
                   (b - o, dt.timedelta(0)), f'{w}: {b} in UTC')
            u = b.replace(tzinfo=D.timezone.utc).astimezone()
            rec.eq('local', (u.replace(tzinfo=None), u.utcoffset()),
                   (b + o, o), f'{w}: {b} here')
            rec.eq('explicit', b.astimezone(D.LOCAL).utcoffset(),
                   D.LOCAL.utcoffset(None), w)
        if (0 < t < 4e9 and abs(want[0]) < 55
                and (0, 3) < loc[3:5] < (23, 0)):
            # The time of the day is the time since the local sunset.
            jd = t / 86400 + EPOCH
            noon = int(jd + want[1] / 360) - want[1] / 360
            el = [jd - astro.event(noon + i, want[0], want[1], 'set')
                  for i in (-2, -1, 0, 1)]
            el = min(x for x in el if x > -15 / 86400)
            got = (loc[3] * 3600 + loc[4] * 60 + loc[5]) / 86400
            d = abs(got - el) * 86400
            rec.expect(d < 15 or abs(d - 86400) < 15 or el > 0.999,
                       'sunset', 'sunset', lambda: f'{w}: {t} is {loc}, the '
                       f'sunset was {el * 24} h before')
    t0 = time.time()
    n = D.datetime.now()
    d = D.date.today()
    m = D.datetime.now(here)
    t1 = time.time()
    lo, hi = (tuple(BC.badi_date_from_timestamp(t, *want, us=True,
                                                short=True))
              for t in (t0 - 0.01, t1 + 0.01))
    if lo[:3] == hi[:3]:
        rec.expect(lo <= tuple(n.b_date) + tuple(n.b_time) <= hi, 'now',
                   'now', f'{w}: {lo} {n} {hi}')
        rec.expect(lo <= tuple(m.b_date) + tuple(m.b_time) <= hi, 'now',
                   'now', f'{w}: {lo} {m} {hi}')
        rec.eq('now', tuple(d.b_date), lo[:3], w)


def odd(t):
    """Around the reform and the Julian leap days (C04)."""
    y, _, _ = time.gmtime(t)[:3]
    return y == 1582 or (y < 1583 and y % 100 == 0 and y % 400)
