"""The structure of a year: 18 months, the intercalary days, the Fast."""
from .. import core
from ..api import BC, D, M, T, is_fudge, long_of

PROP = 'C02'
RULE = ('one case per Badi year, all 3004 in both tiers; the monitor walks '
        'the year through the public constructors and conversions and '
        'compares length, leap status, month lengths, the days accepted and '
        'refused, and the day of the year with the reference calendar; '
        'distinct: the years')
ASSUMPTIONS = ['the committed table of year starts (decided by C01)']
REQUIRED = {'leap': 6000, 'accepted': 6000, 'refused': 9000, 'length': 2900,
            'yday': 9000, 'part-day': 50000}


def gen(rng, tier, part, parts):
    for y in core.share(range(M.MIN, M.MAX + 1), part, parts):
        yield ['year', y, [rng.randint(1, 365 + M.leap(y)) for _ in
                           range(2 if tier == 'quick' else 24)],
               rng.randint(1, 999) / 1000]


def run(rec, case):
    _, y, extra, frac = case
    rec.state(y)
    lp, a = M.leap(y), M.ayyam(y)
    rec.eq('leap', bool(BC._is_leap_year(y)), lp, f'leap status of {y}')
    rec.eq('leap', bool(T._is_leap_year(y)), lp, f'leap status of {y}')
    # The last day of each month is there and the one after it is not.
    for cls, form in ((D.date, tuple), (D.date, long_of),
                      (D.datetime, long_of)):
        for m, n in ((0, a), (19, 19), (18, 19), (1, 19)):
            d = form((y, m, n))
            obj = cls(*d)
            rec.eq('accepted', (obj.month, obj.day), (m, n), f'{cls} {d}')
            rec.raises('refused', (AssertionError, ValueError), cls,
                       *form((y, m, n + 1)))
        rec.raises('refused', (AssertionError, ValueError), cls,
                   *form((y, 0, 0)))
        rec.raises('refused', (AssertionError, ValueError), cls,
                   *form((y, 20, 1)))
    # The same for the tuples of the calendar, whose days have fractions.
    no = AssertionError, ValueError
    for m, n in ((0, a), (19, 19), (18, 19), (0, 1), (19, 1)):
        for f in (0.25, frac):
            d = (y, m, n + f)
            rec.eq('part-day', BC.kvymdhms_from_b_date(
                long_of(d), short=True)[:3], (y, m, n), f'{d}')
            rec.expect(abs(BC.jd_from_badi_date(d) - f -
                           BC.jd_from_badi_date((y, m, n))) < 1e-4,
                       'part-day', 'part-day', lambda: f'Julian day of {d}')
    for d in ((y, 0, a + 1), (y, 0, a + 1 + frac), (y, 19, 20), (y, 1, 20),
              (y, 18, 20 + frac), (y, 0, 0), (y, 0, frac), (y, 1, 1 - frac)):
        rec.raises('refused', no, BC.jd_from_badi_date, d)
        rec.raises('refused', no, BC.kvymdhms_from_b_date, long_of(d))
    # The first day of a year follows the last one of the year before.
    if y < M.MAX:
        j0 = BC.jd_from_badi_date((y, 1, 1))
        j1 = BC.jd_from_badi_date((y + 1, 1, 1))
        rec.expect(abs(j1 - j0 - 365 - lp) < 0.01, 'length', 'length',
                   lambda: f'{y} takes {j1 - j0} days, it has {365 + lp}')
        n = D.date(y + 1, 1, 1) - D.date(y, 1, 1)
        want = 365 + lp
        if n.days == want + is_fudge(y + 1) - is_fudge(y) != want:
            rec.bad('fudge-ordinal', f'{y + 1} - {y}: {n}')
        else:
            rec.eq('length-days', n.days, want, f'length of {y}')
    # The months in order, by the day of the year.
    for n in {1, 19, 20, 342, 343, 342 + a, 343 + a, 365 + lp, *extra}:
        d = M.from_yday(y, n)
        tt = D.date(*d).timetuple()
        rec.eq('yday', (tt.tm_yday, tt.tm_mon, tt.tm_mday), (n, *d[1:]),
               f'timetuple of {d}')
        lt = D.date(*long_of(d)).timetuple()
        rec.eq('yday-long', (lt.tm_yday, lt.tm_mon, lt.tm_mday),
               (n, *d[1:]), f'timetuple of {long_of(d)}')
        if y in (175, 176):
            rec.sample('yday', f'{d} is day {n}')
    for m in range(1, 20):
        rec.eq('days-before', T._days_before_month(y, m),
               M.yday(y, m, 1) - 1, f'days before month {m} of {y}')
    rec.eq('days-before', T._days_before_month(y, 0), 342,
           f'days before Ayyam-i-Ha of {y}')
