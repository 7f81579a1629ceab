"""Badi dates and Gregorian dates name the same days."""
import datetime as dt

from ..api import BC, M, TEHRAN, day, gap, hms, place, CENTURIES

PROP = 'C06'
RULE = ('cases are (date, time, place); the Badi date at local mean noon is '
        'that of the evening before, at 23:50 that of the evening itself, by '
        'the reference calendar and the standard library; conversions to and '
        'fro have to cancel; distinct: the (date, place) pairs')
ASSUMPTIONS = ['the committed table of year starts (decided by C01)',
               'latitudes up to 58 degrees, so that the Sun sets between '
               '14:30 and 22:00 local mean time']
REQUIRED = {'noon': 8000, 'evening': 8000, 'round-trip': 2500, 'named': 4000,
            'zone': 2500}


def gen(rng, tier, part, parts):
    for i in range(180 if tier == 'quick' else 3000):
        pl = TEHRAN if rng.random() < 0.3 else place(rng, 58)
        d = day(rng)
        yield ['day', d, pl]
        if i % 3 == 0:
            yield ['trip', d, hms(rng), pl]
        if i % 3 == 1:
            yield ['named', d[0], pl]


def run(rec, case):
    globals()['run_' + case[0]](rec, *case[1:])


def near(d):
    n = M.from_ordinal(M.ordinal(*d) + 1)
    return gap(d) or gap(n) or tuple(d) == (M.MAX, 19, 19)


def ut(o, hours):
    """(y, m, d, hh, mm, ss) of a UT moment: an ordinal and hours."""
    x = dt.datetime.fromordinal(o) + dt.timedelta(hours=hours)
    return (x.year, x.month, x.day, x.hour, x.minute,
            x.second + round(x.microsecond / 1e6))


def run_day(rec, d, pl):
    d = tuple(d)
    if near(d):
        return
    o = M.ordinal(*d)
    rec.state(d, pl)
    east = pl[1] / 15
    g = ut(o, 23.83 - east)
    if g[5] > 59:
        g = g[:5] + (59,)
    b = BC.badi_date_from_gregorian_date(g, *pl, short=True)
    rec.eq('evening', tuple(b[:3]), d, f'{g} UT at {pl}')
    g = ut(o + 1, 12 - east)
    if g[5] > 59:
        g = g[:5] + (59,)
    b = BC.badi_date_from_gregorian_date(g, *pl, short=True)
    rec.eq('noon', tuple(b[:3]), d, f'{g} UT at {pl}')
    lg = BC.badi_date_from_gregorian_date(g, *pl)
    rec.eq('noon-long', tuple(lg[:5]), M.long(d[0]) + d[1:],
           f'{g} UT at {pl}')
    # The day begins in the evening of the Gregorian date.
    loc = (pl[0], pl[1], east)
    x = BC.gregorian_date_from_badi_date(d, *loc)
    rec.eq('begins', tuple(x[:3]), M.gdate(o), f'{d} at {loc}')
    rec.expect(14.5 <= x[3] + x[4] / 60 < 22, 'begins', 'begins-hour',
               lambda: f'{d} at {loc} begins {x}')


def run_trip(rec, d, t, pl):
    d, t = tuple(d), tuple(t)
    if near(d) or d[0] in CENTURIES and d[1] in (18, 0, 19) or t[0] == 23:
        return
    g = BC.gregorian_date_from_badi_date(d + t, pl[0], pl[1], 0)
    s = round(g[5])
    x = dt.datetime(*g[:5]) + dt.timedelta(seconds=s)
    gg = (x.year, x.month, x.day, x.hour, x.minute, x.second)
    b = BC.badi_date_from_gregorian_date(gg, *pl, us=True, short=True)
    b = tuple(b) + (0,) * (7 - len(b))
    diff = ((M.ordinal(*b[:3]) - M.ordinal(*d)) * 86400
            + (b[3] - t[0]) * 3600 + (b[4] - t[1]) * 60 + b[5] - t[2]
            + b[6] / 1e6)
    if t > (0, 0, 1):
        rec.expect(abs(diff) < 0.52, 'round-trip', 'round-trip',
                   lambda: f'{d} {t} at {pl} -> {g} -> {gg} -> {b}')
        rec.state(d, t, pl)
    # The zone moves the Gregorian time and nothing else.
    z = BC.gregorian_date_from_badi_date(d + t, *pl, us=True)
    u = BC.gregorian_date_from_badi_date(d + t, pl[0], pl[1], 0, us=True)
    zs, us = ((dt.date(*v[:3]).toordinal() * 86400 + v[3] * 3600 + v[4] * 60
               + v[5] + v[6] / 1e6) for v in (z, u))
    rec.expect(abs(zs - us - pl[2] * 3600) < 0.01, 'zone', 'zone',
               lambda: f'{d} {t} at {pl}: {z}, in zone 0 {u}')


def run_named(rec, y, pl):
    """The days the calendar names itself."""
    east = pl[1] / 15
    loc = (pl[0], pl[1], east)
    for fn, m, dd in ((BC.naw_ruz_g_date, 1, 1),
                      (BC.first_day_of_ridvan_g_date, 2, 13)):
        o = M.ordinal(y, m, dd)
        x = fn(y, *loc)
        rec.eq('named', (x[0], x[1], int(x[2])), M.gdate(o),
               f'{fn.__name__}({y}, {loc})')
        h = fn(y, *loc, hms=True)
        rec.eq('named', tuple(h[:3]), M.gdate(o),
               f'{fn.__name__}({y}, {loc}, hms=True)')
        rec.expect(abs((x[2] % 1) * 24 - h[3] - h[4] / 60 - h[5] / 3600)
                   < 1e-4, 'named', 'named-hms',
                   lambda: f'{fn.__name__}({y}, {loc}): {x} {h}')
        # It begins at the sunset there, on the clock of any zone.
        for z in (east, pl[2], 0, 0.0):
            at = (pl[0], pl[1], z)
            x = fn(y, *at)
            n = dt.date(x[0], x[1], int(x[2])).toordinal() + x[2] % 1
            want = BC.jd_from_badi_date((y, m, dd), *at) + z / 24 - 1721422.5
            rec.expect(abs(n - want) < 1e-6, 'named', 'named-moment',
                       lambda: f'{fn.__name__}({y}, {at}): {x}, {n - want}')
            h = BC.gregorian_date_from_badi_date((y, m, dd), *at)
            n = (dt.date(*h[:3]).toordinal() + h[3] / 24 + h[4] / 1440
                 + h[5] / 86400)
            rec.expect(abs(n - want) < 1e-6, 'named', 'date-moment',
                       lambda: f'{(y, m, dd)} at {at}: {h}, {n - want}')
        jd = BC.jd_from_badi_date((y, m, dd), *loc)
        s = BC.utc_sunset((y, m, dd), *loc)
        want = ((jd + 0.5) % 1) * 24 + east
        rec.expect(abs((s[0] + s[1] / 60 + s[2] / 3600 - want + 12) % 24
                       - 12) < 1e-4, 'named', 'utc-sunset',
                   lambda: f'utc_sunset({y, m, dd}, {loc}): {s}, {want}')
        # It is the sunset of the day, whatever the time in the date.
        for t in ((5,), (y % 24, y % 60), (23, 59, 59), (0, 0, 1)):
            rec.eq('sunset-of-day', BC.utc_sunset((y, m, dd) + t, *loc), s,
                   f'utc_sunset({(y, m, dd) + t}, {loc})')
    rec.state('named', y)
    if not rec.events['default']:
        rec.eq('default', BC.naw_ruz_g_date(y),
               BC.naw_ruz_g_date(y, *TEHRAN), f'default place, {y}')
        rec.eq('default', BC.first_day_of_ridvan_g_date(y),
               BC.first_day_of_ridvan_g_date(y, *TEHRAN), f'default, {y}')
        rec.eq('default', BC.utc_sunset((y, 5, 5)),
               BC.utc_sunset((y, 5, 5), *TEHRAN), f'default place, {y}')
        rec.eq('default', BC.jd_from_badi_date((y, 5, 5)),
               BC.jd_from_badi_date((y, 5, 5), *TEHRAN), f'default, {y}')
