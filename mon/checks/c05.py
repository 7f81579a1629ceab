"""Gregorian dates and Julian days."""
import datetime as dt

from .. import core
from ..api import BC, GC

PROP = 'C05'
RULE = ('every day of a Gregorian year per case, and random fractional '
        'moments; the exact conversions against the standard library, the '
        'historical ones against an integer Julian and Gregorian calendar, '
        'the alternate ones against an integer 4/128 calendar; distinct: '
        '(calendar, day)')
ASSUMPTIONS = ['years 1 to 3005, the Gregorian years of the Badi range',
               'the 29 February of a Julian century year that has no '
               'Gregorian twin is refused by design']
REQUIRED = {'exact': 30000, 'exact-back': 30000, 'historical': 20000,
            'historical-back': 20000, 'alt': 10000, 'alt-back': 10000,
            'moment': 8000, 'reform-gap': 60, 'reform': 500, 'refused': 500}
MD = (31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)


def gleap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def aleap(y):
    return y % 4 == 0 and y % 128 != 0


def jleap(y):
    return y % 4 == 0


def mdays(lp):
    return [29 if lp and i == 1 else n for i, n in enumerate(MD)]


def g_ord(y, m, d, leap=gleap):
    p = y - 1
    n = 365 * p + p // 4
    if leap is gleap:
        n += p // 400 - p // 100
    elif leap is aleap:
        n -= p // 128
    return n + sum(mdays(leap(y))[:m - 1]) + d


def hist_jd(y, m, d):
    """Integer JD of the midnight that begins a historical date, less .5"""
    if (y, m, d) >= (1582, 10, 15):
        return g_ord(y, m, d) + 1721424
    return g_ord(y, m, d, jleap) + 1721422


def gen(rng, tier, part, parts):
    step = 6 if tier == 'quick' else 1
    ys = set(range(1 + rng.randrange(step), 3006, step))
    ys |= {1, 2, 3, 4, 5, 100, 128, 256, 400, 500, 1000, 1500, 1581, 1582,
           1583, 1600, 1700, 1752, 1844, 1900, 1970, 2000, 2048, 2024, 2100,
           2400, 3003, 3004, 3005}
    for y in core.share(sorted(ys), part, parts):
        yield ['year', y, [rng.random() for _ in range(12)],
               rng.randint(1, 12)]
    if part == 0:
        for d in range(5, 15):
            yield ['gap', d]
    for y in core.share(range(1, 3006), part, parts):
        yield ['ends', y, [rng.randint(1, 365) for _ in range(3)]]


def run(rec, case):
    globals()['run_' + case[0]](rec, *case[1:])


def run_gap(rec, d):
    for g in ((1582, 10, d), (1582, 10, d + 0.25), (1582, 10, d, 12),
              (1582, 10, d, 0, 0, 1), (1582, 10, d, 23, 59, 59.9),
              (1582, 10, d, 0, 0, 0)):
        rec.raises('reform-gap', AssertionError, GC.jd_from_gregorian_date, g)
    # The days on both sides of the gap, and their moments.
    for g, h in (((1582, 10, 4), 2299159.5), ((1582, 10, 15), 2299160.5)):
        for s in (0, 1, 21600, 43199, 43200, 43201, 86399, d * 5000):
            hms = s // 3600, s // 60 % 60, s % 60
            f = s / 86400
            for x in (g + hms, (*g[:2], g[2] + f)) + ((g,) if not s else ()):
                jd = GC.jd_from_gregorian_date(x)
                rec.expect(abs(jd - h - f) < 2e-9, 'reform', 'reform',
                           lambda: f'{x}: {jd}')
            b = GC.gregorian_date_from_jd(h + f)
            rec.expect(b[:2] == g[:2] and abs(b[2] - g[2] - f) < 2e-8,
                       'reform', 'reform-back', lambda: f'{h + f}: {b}')
            b = GC.gregorian_date_from_jd(h + f, hms=True, us=True)
            got = b[3] * 3600 + b[4] * 60 + b[5] + b[6] / 1e6
            rec.expect(b[:3] == g and abs(got - s) < 0.005 or (
                s == 0 and got > 86399.9), 'reform', 'reform-hms',
                lambda: f'{h + f}: {b}')
            rec.eq('reform', GC.gregorian_year_from_jd(h + f), 1582,
                   f'year of {h + f}')


def one(rec, y, m, d):
    o = g_ord(y, m, d)
    rec.state('g', o)
    if 1 <= y <= 9999:
        assert o == dt.date(y, m, d).toordinal()
    jd = GC.jd_from_gregorian_date((y, m, d), exact=True)
    rec.eq('exact', jd, o + 1721422.5, f'{(y, m, d)} exact')
    b = GC.gregorian_date_from_jd(o + 1721422.5, exact=True)
    rec.eq('exact-back', tuple(b), (y, m, d), f'{o + 1721422.5} exact')
    # Historical: every Gregorian date that the calendar of the day had.
    if (y, m) == (1582, 10) and 5 <= d <= 14:
        return
    h = hist_jd(y, m, d) + 0.5
    rec.eq('historical', GC.jd_from_gregorian_date((y, m, d)), h,
           f'{(y, m, d)} historical')
    rec.eq('historical-back', tuple(GC.gregorian_date_from_jd(h)),
           (y, m, d), f'{h} historical')


def run_ends(rec, y, more):
    lp = gleap(y)
    rec.eq('leap', bool(GC._is_leap_year(y)), lp, f'leap {y}')
    rec.eq('leap', bool(GC._is_leap_year(y, alt=True)), aleap(y),
           f'alternate leap {y}')
    for m, d in ((1, 1), (2, 28), (2, 29), (3, 1), (12, 31), (12, 30)):
        if d != 29 or lp:
            one(rec, y, m, d)
    for n in more:
        o = g_ord(y, 1, 1) + n - 1
        x = dt.date.fromordinal(o)
        one(rec, x.year, x.month, x.day)
    for bad in ((y, 2, 29 + lp), (y, 0, 1), (y, 13, 1), (y, 4, 31),
                (y, 6, 0), (y, 12, 32), (y, 3, 4, 12.5, 30),
                (y, 3, 4, 12, 30.5, 5), (y, 3, 4.5, 12), (y, 3, 4, 25),
                (y, 3, 4, 12, 60), (y, 3, 4, 24), (y, 3, 4, 12, 5, 60),
                (y, 3, 4, 12, 0, 75), (y, -3, 4), (y, 3, -4), (y, -3, -4),
                (y, 3, 4, -1), (y, 3, 4, 12, -5), (y, 3, 4, 12, 0, -1),
                (y, 3, 4, 12, 5, -0.5), (y, 3, 0.5), (y, 12, 32.0)):
        for kw in {}, {'exact': True}, {'exact': True, 'alt': True}:
            rec.raises('refused', AssertionError, GC.jd_from_gregorian_date,
                       bad, **kw)
        for f in GC.date_from_ymdhms, GC.ymdhms_from_date:
            rec.raises('refused', AssertionError, f, bad)
        if bad[0] > 1:
            rec.raises('refused', AssertionError,
                       BC.badi_date_from_gregorian_date, bad, short=True)
    if not lp:
        rec.raises('refused', AssertionError, GC.jd_from_gregorian_date,
                   (y, 2, 29), exact=True)


def run_year(rec, y, fr, month):
    for m, n in enumerate(mdays(gleap(y)), 1):
        if m in (2, month) or y in (1, 1582, 1583, 3004):
            for d in range(1, n + 1):
                one(rec, y, m, d)
    for m, n in enumerate(mdays(aleap(y)), 1):
        for d in {1, 2, n - 1, n}:
            if (m, d) == (2, 29) and not gleap(y):
                continue
            o = g_ord(y, m, d, aleap)
            if not (m == 2 and d == 29 and not aleap(y)):
                rec.eq('alt', GC.jd_from_gregorian_date(
                    (y, m, d), exact=True, alt=True), o + 1721422.5,
                    f'{(y, m, d)} alternate')
                rec.eq('alt-back', tuple(GC.gregorian_date_from_jd(
                    o + 1721422.5, exact=True, alt=True)), (y, m, d),
                    f'{o + 1721422.5} alternate')
    # Moments within the day.
    for i, f in enumerate(fr):
        o = g_ord(y, 1, 1) + int(f * 1e6) % 365
        x = dt.date.fromordinal(o)
        f = round(f, 6)
        s = int(f * 86400)
        hh, mm, ss = s // 3600, s // 60 % 60, s % 60
        gd = (x.year, x.month, x.day)
        jd = GC.jd_from_gregorian_date((*gd, hh, mm, ss), exact=True)
        rec.expect(abs(jd - (o + 1721422.5 + s / 86400)) < 2e-9, 'moment',
                   'moment', lambda: f'{gd} {hh}:{mm}:{ss} exact: {jd}')
        jf = GC.jd_from_gregorian_date((*gd[:2], gd[2] + f), exact=True)
        rec.expect(abs(jf - (o + 1721422.5 + f)) < 2e-9, 'moment',
                   'moment-fraction', lambda: f'{gd} + {f} exact: {jf}')
        for b, want in ((GC.gregorian_date_from_jd(jf, exact=True), f),):
            rec.expect(tuple(b[:2]) == gd[:2]
                       and abs(b[2] - gd[2] - want) < 2e-8, 'moment',
                       'moment-back', lambda: f'{jf} exact: {b}, {gd} + {f}')
        if i < 2:
            jf = o + 1721423.5 - (1e-9, 1e-8, 3e-8)[y % 3] * (1 + i)
            f = jf - (o + 1721422.5)
        b = GC.gregorian_date_from_jd(jf, exact=True, hms=True, us=True)
        rec.expect(b[3] < 24 and b[4] < 60 and b[5] < 60 and b[6] < 10**6,
                   'moment', 'moment-range', lambda: f'{jf} exact: {b}')
        got = (dt.date(*b[:3]).toordinal() - o) * 86400 + b[3] * 3600 \
            + b[4] * 60 + b[5] + b[6] / 1e6
        rec.expect(abs(got - f * 86400) < 0.005, 'moment', 'moment-hms',
                   lambda: f'{jf} exact, hms: {b}, {gd} + {f}')
        if (x.year, x.month) != (1582, 10):
            h = hist_jd(*gd) + 0.5
            jh = GC.jd_from_gregorian_date((*gd, hh, mm, ss))
            rec.expect(abs(jh - h - s / 86400) < 2e-9, 'moment',
                       'moment-historical',
                       lambda: f'{gd} {hh}:{mm}:{ss}: {jh}')
            b = GC.gregorian_date_from_jd(h + f)
            rec.expect(tuple(b[:2]) == gd[:2] and
                       abs(b[2] - gd[2] - f) < 2e-8, 'moment',
                       'moment-historical', lambda: f'{h + f}: {b}')
            rec.eq('year', GC.gregorian_year_from_jd(h + f), x.year,
                   f'year of {h + f}')
