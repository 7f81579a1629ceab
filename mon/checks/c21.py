"""Sunsets, sunrises, transits, and the length of days against the sky."""
import math

from .. import astro, core
from ..api import BC, GC, M, TEHRAN, day, gap, place

PROP = 'C21'
RULE = ('cases are (day, place); the oracle is an independent solar model '
        '(VSOP87 series, Espenak and Meeus Delta T); distinct: the events')
ASSUMPTIONS = ['places up to 66 degrees of latitude; the tolerance grows '
               'from 4 s in 1750 to 59 s in the year -100, and with the '
               'latitude, as the theory of the Sun in use is approximate',
               'not the days on which the Sun grazes the horizon']
REQUIRED = {'set': 20000, 'rise': 8000, 'transit': 8000, 'order': 8000,
            'next-day': 8000, 'altitude': 8000, 'offset': 4000,
            'day-length': 4000, 'utc-sunset': 6000, 'hms': 4000}
S = 86400.0
LO, HI = 1684600.0, 2818800.0       # -100-03 to 3005-07


def tol(jd, lat):
    """Seconds."""
    y = astro.year_of(jd)
    t = 4.5 + 50 * ((y - 1750) / 1750) ** 2
    return t * (1 if abs(lat) < 45 else 1.7 if abs(lat) <= 60 else 3)


def gen(rng, tier, part, parts):
    for i in range(150 if tier == 'quick' else 4000):
        r = rng.random()
        jd = (rng.uniform(LO, HI) if r < 0.6 else
              rng.uniform(2378497, 2488070))        # 1800 - 2100
        lat, lon, zone = place(rng, 66 if rng.random() < 0.2 else 50)
        if rng.random() < 0.1:
            lon = rng.choice((0, 180, -180, 179.9999, -179.9999, 1e-6))
        if rng.random() < 0.1:
            lat = rng.choice((0, 0.0, 23.44, -23.44, 45, -45, 1e-9))
        yield ['event', jd, lat, lon, rng.choice((
            0, -6, 6, 12, -0.25, 0.5, rng.uniform(-3, 10)))]
        if i % 2:
            while True:
                d = day(rng)
                if d[0] > M.MIN and d[0] < M.MAX and not gap(d):
                    break
            yield ['sunset', d, *place(rng, 58)]
    # Every month of the year in one place, over some years.
    for k in core.share(range(64), part, parts):
        y = rng.randint(-100, 3000)
        lat, lon, _ = place(rng, 60)
        for n in range(0, 366, 9 if tier == 'quick' else 2):
            yield ['event', 1721060.5 + y * 365.2425 + n + rng.random(),
                   lat, lon, 0.8333]


def run(rec, case):
    globals()['run_' + case[0]](rec, *case[1:])


def midnight(jd, lon):
    """The local mean midnight before the moment."""
    return math.floor(jd + lon / 360 + 0.5) - 0.5 - lon / 360


def near_edge(jd, lon):
    f = (jd + lon / 360 + 0.5) % 1
    return f < 1e-7 or f > 1 - 1e-7


def diff(a, b):
    return (a - b) * S


def grazing(t, lat, lon):
    """The Sun moves along the horizon: seconds cannot be told."""
    return abs(astro.altitude(t + 30 / S, lat, lon)
               - astro.altitude(t - 30 / S, lat, lon)) < 0.06


def run_event(rec, jd, lat, lon, off):
    if near_edge(jd, lon):
        return
    noon = midnight(jd, lon) + 0.5
    want = {k: astro.event(noon, lat, lon, k) for k in (
        'rise', 'set', 'transit')}
    if None in want.values() or any(
            grazing(want[k], lat, lon) for k in ('rise', 'set')):
        return
    rec.state(round(jd), round(lat, 2), round(lon, 2))
    t = tol(jd, lat)
    w = f'{jd} {lat} {lon}'
    ss = BC._sun_setting(jd, lat, lon)
    sr = BC._sun_rising(jd, lat, lon)
    for k, got in (('set', ss), ('rise', sr)):
        rec.expect(abs(diff(got, want[k])) < t, k, k, lambda: f'{w}: {k} at '
                   f'{got}, the Sun {k}s {want[k]}: '
                   f'{diff(got, want[k]):.1f} s')
        alt = astro.altitude(got, lat, lon)
        rec.expect(abs(alt + 0.8333) < t / 200, 'altitude', 'altitude',
                   lambda: f'{w}: the Sun is at {alt} at its {k} {got}')
    # Any time of the same day gives the same event.
    other = noon + (0.49 if jd < noon else -0.49)
    got = BC._sun_setting(other, lat, lon)
    rec.expect(abs(diff(got, ss)) < 1, 'set', 'same-day',
               f'{w}: {ss}, by {other} {got}')
    # The Gregorian calendar object knows the same Sun.
    rec.eq('set', GC._sun_setting(jd, lat, lon), ss, w)
    rec.expect(sr < noon < ss, 'order', 'order', f'{w}: {sr} {noon} {ss}')
    # The next day has the next events, a day and at most minutes later.
    ss1 = BC._sun_setting(jd + 1, lat, lon)
    sr1 = BC._sun_rising(jd + 1, lat, lon)
    wd = [astro.event(noon + 1, lat, lon, k) for k in ('set', 'rise')]
    if None not in wd and not any(grazing(x, lat, lon) for x in wd):
        for a, b, c, d in ((ss, ss1, want['set'], wd[0]),
                           (sr, sr1, want['rise'], wd[1])):
            rec.expect(abs(diff(b - a, d - c)) < 2, 'next-day', 'next-day',
                       f'{w}: {a} then {b}, the Sun {c} then {d}')
    f = BC._sun_transit(jd, lon)
    rec.expect(-1 <= f <= 2, 'transit', 'transit-fraction', f'{w}: {f}')
    near = min((astro.event(noon + i, lat, lon, 'transit')
                for i in (-1, 0, 1, 2)), key=lambda x: abs(x - jd - f))
    rec.expect(abs(diff(jd + f, near)) < tol(jd, 0), 'transit', 'transit',
               lambda: f'{w}: transit at {jd + f}, the Sun {near}')
    at0 = math.floor(jd + 0.5) - 0.5
    f = BC._sun_transit(at0, lon)
    rec.expect(-0.02 <= f <= 1.02, 'transit', 'transit-day', f'{at0} {lon}: {f}')
    if sr < at0 + f < ss:
        rec.expect(abs((sr + ss) / 2 - at0 - f) * S < 90 * (
            1 + math.tan(math.radians(lat)) ** 2), 'transit', 'middle',
            f'{w}: the transit {at0 + f} is not between {sr} and {ss}')
    rise = astro.event(noon, lat, lon, 'rise', -off)
    sets = astro.event(noon, lat, lon, 'set', -off)
    if None not in (rise, sets):
        a = BC._sun_rising(jd, lat, lon, offset=off)
        b = BC._sun_setting(jd, lat, lon, offset=off)
        for got, true in ((a, rise), (b, sets)):
            if abs(true - noon) > 0.49:
                continue        # may be counted to the neighbouring day
            if grazing(true, lat, lon):
                continue
            rec.expect(abs(diff(got, true)) < 1.5 * t + 2, 'offset',
                       'offset', lambda: f'{w}: offset {off}: {got}, the '
                       f'Sun {true}')


def clock(t):
    return ((t[0] * 60 + t[1]) * 60 + (t[2] if len(t) > 2 else 0)) / S


def run_sunset(rec, d, lat, lon, zone):
    """By the calendar: the sunset that begins a day, and its length."""
    o = M.ordinal(*d)
    real = o + 1721424.5 + M.julian_shift(o)
    # The day begins in the evening of the civil day of this number.
    want = astro.event(real + 0.5 - lon / 360, lat, lon, 'set')
    after = astro.event(real + 1.5 - lon / 360, lat, lon, 'set')
    if want is None or after is None:
        return
    rec.state(d, lat, lon)
    leap = any(M.julian_shift(i) != M.julian_shift(o)
               for i in range(o - 3, o + 4))
    # By a Julian leap day the sunset of a neighbouring day is used (C04).
    t = tol(real, lat) + (240 if leap else 3)
    w = f'{d} {lat} {lon} {zone}'
    got = BC.utc_sunset(tuple(d), lat, lon, zone)
    x = clock(got) * S
    y = ((want + zone / 24 + 0.5) % 1) * S
    near = abs((x - y + S / 2) % S - S / 2)
    rec.expect(near < t, 'utc-sunset', 'utc-sunset', lambda: f'{w}: {got}, '
               f'the Sun sets {y / 3600} h')
    rec.expect(len(got) == 3 and 0 <= got[0] < 24 and 0 <= got[1] < 60
               and 0 <= got[2] < 60, 'hms', 'utc-sunset', f'{w}: {got}')
    jd = BC.jd_from_badi_date(tuple(d), lat, lon, zone)
    rec.expect(abs(((jd + zone / 24 + 0.5) % 1 * S - x + S / 2) % S - S / 2)
               < 0.01, 'utc-sunset', 'utc-sunset-jd', f'{w}: {jd} {got}')
    if (lat, lon, zone) == TEHRAN:
        rec.eq('utc-sunset', BC.utc_sunset(tuple(d)), got, w)
    # Length of the day.  Its argument is an exact count of days.
    e = o + 1721422.5 + 0.5
    n = BC._day_length(e + 0.3, lat, lon, decimal=True)
    ok = [after - want]
    for i in (-1, 1, 2):
        a, b = (astro.event(real + 0.5 + i + j - lon / 360, lat, lon, 'set')
                for j in (0, 1))
        if a is not None and b is not None:
            ok.append(b - a)
    rec.expect(min(ok) * S - 2 < n * S < max(ok) * S + 2, 'day-length',
               'day-length', lambda: f'{w}: {n}, the Sun {ok}')
    h = BC._day_length(e + 0.3, lat, lon)
    rec.expect(abs(clock(h) - n) * S < 0.01, 'hms', 'day-length',
               f'{w}: {h} for {n} days')
