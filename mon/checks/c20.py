"""The exact and the historical (Meeus) count of Julian days."""
import datetime as dt

from .. import core
from ..api import BC, GC

PROP = 'C20'
RULE = ('cases are runs of consecutive days with fractions; the oracle is '
        'the integer day count of the calendar label; distinct: the days')
ASSUMPTIONS = ['days before the year 1 are judged by inversion only',
               'the historical count is the Julian calendar up to '
               '1582-10-04 and the Gregorian from 1582-10-15']
REQUIRED = {'meeus': 20000, 'exact': 20000, 'refused': 380, 'order': 20000,
            'label': 5000, 'every-year': 3005}
BASE = 1721422.5
REFORM = dt.date(1582, 10, 15).toordinal()
LAST = dt.date(3005, 12, 31).toordinal()
CENTURIES = [y for y in range(100, 1583, 100) if y % 400]


def historical(o):
    """Real Julian day (at 0 h) of the label of the proleptic day o."""
    if o >= REFORM:
        return o + 1721424.5
    d = dt.date.fromordinal(o)
    a = (14 - d.month) // 12
    y, m = d.year + 4800 - a, d.month + 12 * a - 3
    return d.day + (153 * m + 2) // 5 + 365 * y + y // 4 - 32083 - 0.5


def in_gap(o):
    return REFORM - 10 <= o < REFORM


def gen(rng, tier, part, parts):
    # Runs of days: around every year end and 1 March; then at random.
    for y in core.share(range(1, 3006), part, parts):
        o = dt.date(y, 1, 1).toordinal()
        yield ['days', max(1, o - 2), 4, rng.random()]
        yield ['days', o + 55, 8, rng.random()]
        if tier != 'quick':
            yield ['days', o, 366, rng.random()]
        yield ['year', y]
    for i in range(40 if tier == 'quick' else 600):
        yield ['days', rng.randint(1, LAST - 40), 40, rng.choice((
            0.0, 0.5, 0.999999, 1e-6, rng.random()))]
        yield ['early', rng.uniform(1000000, 1721423)]
    if part == 0:
        yield ['days', REFORM - 40, 80, 0.25]
        yield ['refused']


def run(rec, case):
    globals()['run_' + case[0]](rec, *case[1:])


def run_days(rec, o, n, f):
    last = None
    for i in range(o, min(o + n, LAST + 1)):
        rec.state(i)
        x = BASE + i
        if in_gap(i):
            rec.raises('refused', ValueError, BC._meeus_from_exact, x + f)
            continue
        h = historical(i)
        for g in (0.0, f, 0.999999):
            m = BC._meeus_from_exact(x + g)
            rec.expect(abs(m - h - g) < 1e-8, 'meeus', 'meeus',
                       lambda: f'{dt.date.fromordinal(i)} + {g}: exact '
                       f'{x + g}: {m}, historical {h + g}')
            e = BC._exact_from_meeus(h + g)
            rec.expect(abs(e - x - g) < 1e-8, 'exact', 'exact',
                       lambda: f'{dt.date.fromordinal(i)} + {g}: historical '
                       f'{h + g}: {e}, exact {x + g}')
            e = BC._exact_from_meeus(m)
            rec.expect(abs(e - x - g) < 1e-8, 'exact', 'inverse',
                       lambda: f'{x + g} {m} {e}')
            if last is not None:
                rec.expect(m >= last, 'order', 'order', f'{m} after {last}')
            last = m
        if GC is not None and (i - o) % 5 == 0 and i > 1:
            d = dt.date.fromordinal(i)
            y = d.year, d.month, d.day
            rec.eq('label', (GC.gregorian_date_from_jd(x, exact=True),
                             GC.gregorian_date_from_jd(
                                 BC._meeus_from_exact(x))), (y, y), f'{x}')
            rec.eq('label', GC.jd_from_gregorian_date(y), h, f'{y}')


def run_year(rec, y):
    """The ends of a year in both counts have the right distance."""
    a, b = (dt.date(z, 1, 1).toordinal() for z in (y, y + 1))
    rec.ok('every-year')
    m = BC._meeus_from_exact(BASE + b) - BC._meeus_from_exact(BASE + a)
    rec.eq('meeus', m, historical(b) - historical(a), f'days of {y}')


def run_early(rec, x):
    e = BC._exact_from_meeus(BC._meeus_from_exact(x))
    rec.expect(abs(e - x) < 1e-8, 'exact', 'inverse', f'{x} {e}')
    rec.eq('meeus', BC._meeus_from_exact(x), x, f'{x}')


def run_refused(rec):
    """The Julian leap days that have no Gregorian label."""
    for y in CENTURIES:
        h = historical(dt.date(y, 3, 1).toordinal()) - 1
        for f in (0, 1e-5, 0.25, 0.5, 0.99999):
            rec.raises('refused', ValueError, BC._exact_from_meeus, h + f)
        e = [BC._exact_from_meeus(h - 0.5), BC._exact_from_meeus(h + 1)]
        rec.eq('exact', e[1] - e[0], 0.5, f'around 29 February {y}')
    for y in range(4, 1582, 4):
        if y not in CENTURIES:
            h = historical(dt.date(y, 2, 29).toordinal())
            rec.eq('exact', BC._exact_from_meeus(h),
                   BASE + dt.date(y, 2, 29).toordinal(), f'{y}')
    for i in range(40):
        x = BASE + REFORM - 10 + i / 4
        rec.raises('refused', ValueError, BC._meeus_from_exact, x)
    for y in (1500, 1581, 1582, 1583, 1600):
        for d in (10, 14, 4, 15):
            if y == 1582 and 4 < d < 15:
                rec.raises('refused', AssertionError,
                           GC.jd_from_gregorian_date, (y, 10, d))
            else:
                rec.ok('label')
    for k in range(300):
        x = BASE + REFORM - 10 + 10 * k / 300
        rec.raises('refused', ValueError, BC._meeus_from_exact, x)
    rec.expect(BC._meeus_from_exact(BASE + REFORM)
               - BC._meeus_from_exact(BASE + REFORM - 11) == 1, 'meeus',
               'meeus', '15 October follows 4 October')
