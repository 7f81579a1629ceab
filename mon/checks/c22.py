"""The moments of the equinoxes and solstices."""
import datetime as dt

from .. import astro, core
from ..api import BC

PROP = 'C22'
RULE = ('cases are (Gregorian year, season, moment of the year); the oracle '
        'is the moment an independent model of the Sun reaches the '
        'longitude; distinct: the events')
ASSUMPTIONS = ['75 s are allowed (105 s before the year 1000), the '
               'approximation of Meeus has errors of up to a minute',
               'the year is the one of the exact Gregorian count in which '
               'the Julian day lies']
REQUIRED = {'moment': 12000, 'same-year': 8000, 'zone': 8000, 'order': 2500,
            'approx': 8000, 'length': 2500}
S = 86400.0
SEASONS = (0, 90, 180, 270)


def gen(rng, tier, part, parts):
    for y in core.share(range(-150, 3006), part, parts):
        yield ['year', y, rng.random(), rng.random(), rng.uniform(-12, 14)]
        if tier != 'quick':
            for i in range(12):
                yield ['year', y, rng.random(), rng.random(),
                       rng.uniform(-12, 14)]


def run(rec, case):
    globals()['run_' + case[0]](rec, *case[1:])



def run_year(rec, y, f, g, zone):
    """The four events of one year."""
    f = 0.02 + 0.96 * f
    b = 1721060.0 + 365.25 * y if y < 1583 else 1721062.2 + 365.2425 * y - 1
    lo, hi = b + 3, b + (348 if y == 1582 else 360)
    tol = 105 if y < 1000 else 75
    got = []
    for k, lam in enumerate(SEASONS):
        rec.state(y, lam)
        x = lo + (hi - lo) * (f + k / 4) % (hi - lo)
        m = BC._find_moment_of_equinoxes_or_solstices(x, lam=lam)
        got.append(m)
        ut = astro.longitude_moment(y, lam)
        td = ut + astro.delta_t(y + 0.21 + lam / 360)
        w = f'{y} {lam} from {x}: {m}, universal {ut}, dynamical {td}'
        rec.ok('moment')
        if abs(m - ut) * S < tol:
            rec.ok('universal')
        else:
            key = ('delta-t-not-applied' if abs(m - td) * S < tol
                   else 'moment')
            rec.bad(key, w)
        # Any day of the year asks for the same event.
        for h in (g, 0.999 * f, 1 - g):
            z = lo + (hi - lo) * h
            n = BC._find_moment_of_equinoxes_or_solstices(z, lam=lam)
            rec.expect(n == m, 'same-year', 'same-year', lambda: f'{w}, '
                       f'from {z}: {n}')
        n = BC._find_moment_of_equinoxes_or_solstices(x, lam, zone)
        rec.expect(abs(n - m - zone / 24) < 2e-6, 'zone', 'zone',
                   f'{w}, zone {zone}: {n}')
        a = BC._approx_julian_day_for_equinoxes_or_solstices(y, lam)
        rec.expect(abs(a - td) < 30 / 1440, 'approx', 'approx',
                   lambda: f'{y} {lam}: {a}, dynamical {td}')
    rec.expect(got[0] < got[1] < got[2] < got[3], 'order', 'order',
               f'{y}: {got}')
    nxt = BC._find_moment_of_equinoxes_or_solstices(hi + 120)
    rec.expect(365.2 < nxt - got[0] < 365.3, 'length', 'length',
               f'{y}: {got[0]} to {nxt}')
    if 1583 <= y <= 3004:
        # The Gregorian date of the equinox stays in place.
        d = dt.date.fromordinal(int(got[0] - 1721424.5))
        rec.expect(d.year == y and d.month == 3 and 17 <= d.day <= 22,
                   'approx', 'gregorian', f'{y}: {d}')
