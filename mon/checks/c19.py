"""Conversions between the units of time and of angle."""
import math
from fractions import Fraction

from ..api import BC, GC, hms, usec

PROP = 'C19'
RULE = ('cases are values in one unit; the oracle is exact rational '
        'arithmetic and the inverse conversion; distinct: the values')
ASSUMPTIONS = ['times of the day from a fraction of a day are good to 5 ms, '
               'as the code rounds hours to six places',
               'durations are at least 0; of two days or more only the sum '
               'of the parts is judged']
REQUIRED = {'angle': 5000, 'hour-angle': 5000, 'seconds': 10000,
            'zone': 5000, 'day-fraction': 10000, 'microsecond': 10000,
            'gregorian-fraction': 5000, 'number': 10000, 'refused': 3000}
F = Fraction


def gen(rng, tier, part, parts):
    for i in range(250 if tier == 'quick' else 10000):
        r = rng.random()
        a = (rng.uniform(-180, 180) if r < 0.6 else
             rng.randint(-180 * 3600, 180 * 3600) / 3600 if r < 0.9 else
             rng.choice((0, 0.5, -0.5, 90, -90, 180, 1e-9, 59 / 60,
                         3599 / 3600, -1 / 3600,
                         10 ** rng.uniform(-12, 0),
                         -10 ** rng.uniform(-12, 0))))
        yield ['angle', a, rng.randrange(4), rng.uniform(0, 720)]
        yield ['seconds', *hms(rng), usec(rng), rng.choice((
            0, 0, 1, -1, 3.5, 14, -12, 5.75, rng.randint(-12, 14)))]
        yield ['day', *hms(rng), usec(rng), rng.randint(0, 10 ** 6),
               rng.random()]
        yield ['greg', rng.randint(1, 3005), rng.randint(1, 12),
               rng.randint(1, 28), *hms(rng), usec(rng)]
        yield ['number', rng.uniform(-1e5, 1e5), rng.randint(-4000, 4000),
               rng.randint(0, 9), [rng.uniform(-9, 9) for _ in range(
                   rng.randint(0, 6))], rng.uniform(-1, 1),
               [rng.random() < 0.5 for _ in range(rng.randint(0, 5))]]


def run(rec, case):
    rec.state(case)
    globals()['run_' + case[0]](rec, *case[1:])


def near(rec, event, got, want, tol, text):
    rec.expect(abs(got - want) <= tol, event, event,
               lambda: f'{text}: {got!r}, exactly {float(want)!r}')


def run_angle(rec, a, which, h):
    name = ('LAT', 'LON', 'latitude', 'Longitude')[which]
    d, m, s, letter = BC._dms_from_decimal(a, name)
    lat = name.upper().startswith('LAT')
    rec.eq('angle', letter, ('NS' if lat else 'EW')[a < 0], f'{a} {name}')
    rec.expect(isinstance(d, int) and isinstance(m, int) and d >= 0
               and 0 <= m < 60 and -1e-8 < s < 60.00000001, 'angle', 'angle',
               lambda: f'{a}: {d} {m} {s}')
    near(rec, 'angle', d + m / 60 + s / 3600, abs(a), 1e-9, f'{a}')
    for c in (letter, letter.lower()):
        near(rec, 'angle', BC._decimal_from_dms(d, m, s, c), a, 1e-9,
             f'{a}: {d} {m} {s} {c}')
    near(rec, 'angle', BC._ANGLE(d, m, s), abs(a), 1e-9, f'{a}')
    rec.raises('refused', AssertionError, BC._decimal_from_dms, d, m, s, 'Q')
    rec.raises('refused', AssertionError, BC._dms_from_decimal, a, 'LA')
    rec.raises('refused', AssertionError, BC._dms_from_decimal, a, 'NORTH')
    # The hours of an angle.
    q = BC._hms_from_degrees(h)
    rec.expect(isinstance(q[0], int) and 0 <= q[1] < 60
               and -1e-7 < q[2] < 60.0000001, 'hour-angle', 'hour-angle',
               lambda: f'{h}: {q}')
    near(rec, 'hour-angle', 15 * (q[0] + q[1] / 60 + q[2] / 3600), h, 1e-8,
         f'{h}: {q}')
    near(rec, 'hour-angle', BC._degrees_from_hms(*q), h, 1e-8, f'{h}: {q}')
    for v in (h, -h, a, 10 * a, 360.0, -360.0, 0.0, 1e7 * a,
              360.0 * int(h)):
        c = BC._coterminal_angle(v)
        near(rec, 'hour-angle', math.sin(math.radians(c)),
             math.sin(math.radians(math.fmod(v, 360))), 1e-9, f'{v}')
        near(rec, 'hour-angle', math.cos(math.radians(c)),
             math.cos(math.radians(math.fmod(v, 360))), 1e-9, f'{v}')
        # Rounding may give 360 for an angle just below 0, only.
        rec.expect(0 <= c < 360 or c == 360 and -1e-13 < math.fmod(v, 360) < 0,
                   'hour-angle', 'coterminal', f'{v}: {c}')
    near(rec, 'hour-angle', BC._sin_deg(h), math.sin(math.radians(h)), 1e-12,
         f'{h}')
    near(rec, 'hour-angle', BC._cos_deg(h), math.cos(math.radians(h)), 1e-12,
         f'{h}')


def run_seconds(rec, h, m, s, u, zone):
    n = F(h * 3600 + m * 60 + s) + F(u, 10 ** 6)
    x = h * 3600 + m * 60 + s + u / 1e6
    near(rec, 'seconds', BC._seconds_from_dhms(0, h, m, s, u), n, 1e-9,
         f'{h}:{m}:{s}.{u}')
    near(rec, 'seconds', BC._seconds_from_dhms(3, h, m, s + u / 1e6),
         n + 3 * 86400, 1e-9, f'{h}:{m}:{s}.{u}')
    z = F(zone) * 3600
    near(rec, 'zone', BC._seconds_from_dhms(0, h, m, s, u, zone), n + z,
         1e-9, f'{h}:{m}:{s}.{u} {zone}')
    rec.eq('seconds', BC._dhms_from_seconds(x, us=True), (0, h, m, s, u),
           f'{x}')
    rec.eq('seconds', BC._dhms_from_seconds(x + 86400, us=True),
           (1, h, m, s, u), f'{x}')
    d = BC._dhms_from_seconds(x)
    rec.eq('seconds', d[:3], (0, h, m), f'{x}')
    near(rec, 'seconds', d[3], s + F(u, 10 ** 6), 1e-9, f'{x}')
    # In another zone.
    if n + z >= 0:
        d = BC._dhms_from_seconds(x, zone, us=True)
        w = int((n + z) * 10 ** 6)
        rec.eq('zone', d, (w // 10 ** 6 // 86400, w // 10 ** 6 // 3600 % 24,
                           w // 10 ** 6 // 60 % 60, w // 10 ** 6 % 60,
                           w % 10 ** 6), f'{x} {zone}')
    for k in (0, 5, 400):
        d = BC._dhms_from_seconds(x + k * 86400)
        near(rec, 'seconds', d[0] * 86400 + d[1] * 3600 + d[2] * 60 + d[3],
             n + k * 86400, 1e-6, f'{x} {k}')
    f = BC._tz_decimal_from_dhms(0, h, m, s)
    near(rec, 'day-fraction', f, F(h * 3600 + m * 60 + s, 86400), 1e-12,
         f'{h}:{m}:{s}')
    d = BC._tz_dhms_from_decimal(f)
    near(rec, 'day-fraction', d[0] * 86400 + d[1] * 3600 + d[2] * 60 + d[3],
         h * 3600 + m * 60 + s, 1e-6, f'{f}')
    if u:
        rec.raises('refused', AssertionError, BC._seconds_from_dhms, 0, h, m,
                   s + 0.5, u)


def clock(t):
    return t[0] * 3600 + t[1] * 60 + t[2] + (t[3] / 1e6 if len(t) > 3 else 0)


def in_order(t):
    """Whole fields in their ranges, the last one may have a fraction."""
    return (all(isinstance(v, int) for v in t[:2]) and 0 <= t[0] <= 24
            and 0 <= t[1] < 60 and 0 <= t[2] < 60
            and (len(t) == 3 or isinstance(t[2], int)
                 and isinstance(t[3], int) and 0 <= t[3] < 10 ** 6))


def run_day(rec, h, m, s, u, days, f):
    n = h * 3600 + m * 60 + s + u / 1e6
    x = BC._decimal_day_from_hms(h, m, s, u)
    near(rec, 'day-fraction', x, n / 86400, 1e-12, f'{h}:{m}:{s}.{u}')
    if u:
        near(rec, 'day-fraction', BC._decimal_day_from_hms(h, m, s + u / 1e6),
             n / 86400, 1e-12, f'{h}:{m}:{s}.{u}')
        rec.raises('refused', AssertionError, BC._decimal_day_from_hms, h, m,
                   s + 0.5, u)
    for v, w, tol in ((x, n, 0.005), (f, f * 86400, 0.005),
                      (days + x, (days + x) % 1 * 86400, 0.005)):
        for us in (False, True):
            t = BC._hms_from_decimal_day(v, us=us)
            rec.expect(in_order(t) and len(t) == 3 + us, 'day-fraction',
                       'day-fraction', lambda: f'{v}: {t}')
            near(rec, 'day-fraction', clock(t), w, tol, f'{v}: {t}')
    # Seconds and microseconds.
    t = BC._sec_microsec_from_seconds(s + u / 1e6)
    rec.eq('microsecond', t, (s, u), f'{s}.{u:06}')
    rec.eq('microsecond', BC._PARTIAL_SECOND_TO_MICROSECOND(s + u / 1e6), u,
           f'{s}.{u:06}')
    near(rec, 'microsecond', BC._US(u), F(u, 10 ** 6), 1e-15, f'{u}')
    t = BC._sec_microsec_from_seconds(s + f)
    rec.expect(t[0] == s and 0 <= t[1] < 10 ** 6
               and abs(t[1] - f * 1e6) <= 1, 'microsecond', 'microsecond',
               lambda: f'{s + f}: {t}')
    for g, k in ((BC._HR, 24), (BC._MN, 1440), (BC._SEC, 86400),
                 (BC._MINS, 60), (BC._SECS, 3600)):
        near(rec, 'day-fraction', g(n), n / k, 1e-9, f'{n} / {k}')
    near(rec, 'day-fraction', BC._PARTIAL_DAY_TO_HOURS(days + f), 24 * f,
         1e-5, f'{f}')
    near(rec, 'day-fraction', BC._PARTIAL_HOUR_TO_MINUTE(h + f), 60 * f,
         1e-6, f'{f}')
    near(rec, 'day-fraction', BC._PARTIAL_MINUTE_TO_SECOND(m + f), 60 * f,
         1e-6, f'{f}')


def run_greg(rec, y, m, d, hh, mm, ss, u):
    """Gregorian dates with fields and with a fraction of a day."""
    n = hh * 3600 + mm * 60 + ss
    f = GC.date_from_ymdhms((y, m, d, hh, mm, ss))
    rec.eq('gregorian-fraction', f[:2], (y, m), 'year and month')
    near(rec, 'gregorian-fraction', (f[2] - d) * 86400, n, 1e-5,
         f'{y}-{m}-{d} {hh}:{mm}:{ss}')
    t = GC.ymdhms_from_date(f)
    rec.expect(t[:3] == (y, m, d) and in_order(t[3:])
               and abs(clock(t[3:]) - n) < 0.005, 'gregorian-fraction',
               'gregorian-fraction', lambda: f'{f}: {t}')
    t = GC.ymdhms_from_date((y, m, d, hh, mm, ss, u), us=True)
    rec.expect(t[:3] == (y, m, d) and in_order(t[3:]) and len(t) == 7
               and abs(clock(t[3:]) - n - u / 1e6) < 0.005,
               'gregorian-fraction', 'gregorian-fraction',
               lambda: f'{y} {m} {d} {hh} {mm} {ss} {u}: {t}')
    for k in range(3, 6):
        g = (y, m, d, hh, mm, ss)[:k]
        near(rec, 'gregorian-fraction',
             (GC.date_from_ymdhms(g)[2] - d) * 86400,
             sum(a * b for a, b in zip(g[3:], (3600, 60))), 1e-5, f'{g}')
    for g in ((y, 13, d), (y, 0, d), (y, m, 32), (y, m, 0),
              (y, m, d, 25, 0, 0), (y, m, d, 1, 60)):
        rec.raises('refused', AssertionError, GC.date_from_ymdhms, g)
        rec.raises('refused', AssertionError, GC.ymdhms_from_date, g)


def run_number(rec, x, y, places, poly, p, bools):
    # Days in the years up to y.
    want = 365 * y + y // 4 - y // 100 + y // 400
    rec.eq('number', BC._days_in_years(y), want, f'days in {y} years')
    rec.eq('number', BC._days_in_years(y, alt=True),
           365 * y + y // 4 - y // 128, f'days in {y} years, 4/128')
    near(rec, 'number', BC._poly(p, tuple(poly)),
         sum((F(c) * F(p) ** i for i, c in enumerate(poly)), F(0)), 1e-9,
         f'{poly} at {p}')
    a, b, c = (poly + [1.0, 2.0, 4.0])[:3]
    near(rec, 'number', BC._sigma(((a, b), (b, c)), lambda u, v: u * v),
         a * b + b * c, 1e-9, f'{a} {b} {c}')
    rec.raises('refused', AssertionError, BC._sigma, ((1, 2), (3,)),
               lambda u, v: u)
    # A parabola through three points.
    near(rec, 'number', BC._interpolation_from_three(a, b, c, p),
         b + p / 2 * ((c - a) + p * (a - 2 * b + c)), 1e-9,
         f'{a} {b} {c} {p}')
    # Right ascensions that pass 360 degrees.
    for base in (abs(x) % 360, 359.2, 358.1):
        q = [(base + k * 0.98) % 360 for k in range(3)]
        r = BC._interpolation_from_three(*q, p, True)
        near(rec, 'number', (r - base - 0.98 - 0.98 * p + 180) % 360 - 180,
             0, 1e-9, f'{q} {p}')
    t = BC._truncate_decimal(x, places)
    rec.expect(-1e-9 <= x - t < 10.0 ** -places + 1e-9, 'number', 'number',
               lambda: f'{x} to {places} places: {t}')
    n = sum(bools)
    rec.eq('number', BC._xor_boolean(bools), n % 2 == 1 or n == 0, f'{bools}')
    for z in (-12, 0, 3.5, 14):
        near(rec, 'zone', BC._local_zone_correction(x, z, mod_jd=True),
             x + z / 24, 1e-9, f'{x} {z}')
        near(rec, 'zone', BC._local_zone_correction(
            x, z, mod_jd=True, inverse=True), x - z / 24, 1e-9, f'{x} {z}')
        r = BC._local_zone_correction(x, z)
        near(rec, 'zone', (r - x - z / 24 + 0.5) % 1 - 0.5, 0, 1e-9,
             f'{x} {z}')
        rec.expect(0 <= r <= 1, 'zone', 'zone', f'{x} {z}: {r}')
    rec.raises('refused', AssertionError, BC._local_zone_correction, x)
    rec.raises('refused', AssertionError, BC._local_zone_correction, x, 181)
    for q, k in ((7, 2), (-7, 2), (int(x), 19)):
        rec.eq('number', BC._QUOTIENT(q, k), q // k, f'{q} {k}')
        r = BC._AMOD(q, k)
        rec.expect(1 <= r <= k and (r - q) % k == 0, 'number', 'amod',
                   f'{q} {k}: {r}')
