"""Which dates, times, and arguments are accepted."""
import datetime as dt
import math

from .. import core
from ..api import BC, D, M, T, day, hms, long_of, mk, usec, ymd

PROP = 'C15'
RULE = ('cases are (fields, damage); the oracle knows the valid ranges of '
        'every field; distinct: the refused arguments')
ASSUMPTIONS = ['one year outside the range and second 60 may be accepted or '
               'refused (the code uses both internally)',
               'which exception refuses an argument is judged only as one of '
               'AssertionError, ValueError, TypeError, OverflowError or '
               'AttributeError']
REQUIRED = {'accepted': 5000, 'refused-date': 10000, 'refused-time': 10000,
            'refused-type': 5000, 'fraction': 1500, 'refused-count': 2000,
            'refused-fraction': 1500, 'refused-tuple': 2000,
            'refused-zone': 1000, 'every-year': 3004, 'refused-ordinal': 500,
            'unharmed': 1000}
EXC = (AssertionError, ValueError, TypeError, OverflowError, AttributeError)
BAD = (None, '1', b'1', [], (), {}, 1j, float('nan'), object)
INF = float('inf')


class Sub(D.datetime):
    pass


def gen(rng, tier, part, parts):
    for y in core.share(range(M.MIN, M.MAX + 1), part, parts):
        yield ['year', y]
    for i in range(110 if tier == 'quick' else 1500):
        d = day(rng)
        t = [*hms(rng), usec(rng)]
        yield ['date', d, rng.choice((1, 1, 2, 5, 100, 10 ** 6)),
               rng.randrange(4)]
        yield ['time', d, t, rng.choice((1, 1, 2, 40, 10 ** 7)),
               rng.randrange(4)]
        yield ['type', d, t, rng.randrange(len(BAD)), rng.randrange(9)]
        yield ['count', d, rng.randint(0, 2 ** 31)]
        yield ['fraction', d, [*hms(rng), 0], rng.choice((
            rng.random(), rng.random(), 0.5, 0.25, 1 / 3, 2 / 3, 0.999999,
            0.9999999999999, 1e-6, 1e-9, rng.random() * 1e-4,
            1 - rng.random() * 1e-4)), rng.randrange(2)]
        if i % 4 == 0:
            yield ['tuple', d, t, rng.randrange(2)]
            yield ['zone', d, t, rng.randrange(5)]
            yield ['ordinal', rng.choice((1, 2, 10, 10 ** 6, 10 ** 12))]


def run(rec, case):
    globals()['run_' + case[0]](rec, *case[1:])


def no(rec, event, fn, *a, **k):
    rec.state(event, getattr(fn, '__name__', ''), a, k)
    rec.raises(event, EXC, fn, *a, **k)


def run_year(rec, y):
    """The days of Ayyam-i-Ha and the ends of the months of every year."""
    n = M.ayyam(y)
    rec.ok('every-year')
    for short in (True, False):
        def make(m, d, cls=D.date):
            return cls(y, m, d) if short else cls(*M.long(y), m, d)
        for cls in (D.date, D.datetime):
            for m, d in ((0, n), (0, 1), (1, 1), (18, 19), (19, 1),
                         (19, 19), (9, 19)):
                x = make(m, d, cls)
                rec.eq('accepted', ymd(x), (y, m, d), f'{x!r}')
            for m, d in ((0, n + 1), (0, 0), (0, 19), (1, 0), (18, 20),
                         (19, 20), (20, 1), (-1, 1), (1, 20), (19, 0)):
                no(rec, 'refused-date', make, m, d, cls)
        # The functions of the calendar.
    no(rec, 'refused-date', BC.jd_from_badi_date, (y, 0, n + 1))
    no(rec, 'refused-date', BC.jd_from_badi_date, (y, 19, 20))
    no(rec, 'refused-date', BC.gregorian_date_from_badi_date, (y, 20, 1))
    no(rec, 'refused-date', BC.timestamp_from_badi_date, (y, 0, n + 1))
    rec.expect(math.isfinite(BC.jd_from_badi_date((y, 0, n))), 'accepted',
               'accepted', f'{y} {n}')


def run_date(rec, d, n, form):
    """One field out of range."""
    y, m, dd = d
    short, cls = form & 1, (D.date, D.datetime)[form >> 1]
    if short:
        f = [y, m, dd]
        lims = ((M.MIN - 1, M.MAX + 1), (0, 19), (1, 19 if m else M.ayyam(y)))
    else:
        f = [*long_of(d)]
        lims = ((-5, 4), (1, 19), (1, 19), (0, 19),
                (1, 19 if m else M.ayyam(y)))
    x = cls(*f)
    rec.eq('accepted', (x.b_date, x.is_short), (tuple(f), bool(short)),
           f'{f}')
    for i, (lo, hi) in enumerate(lims):
        for v in (lo - n, hi + n):
            g = list(f)
            g[i] = v
            no(rec, 'refused-date', cls, *g)
            if not short and i == 0:
                continue
            kw = (('year', 'month', 'day') if short else
                  ('kull_i_shay', 'vahid', 'year', 'month', 'day'))[i]
            no(rec, 'refused-date', x.replace, **{kw: v})
            if short:
                no(rec, 'refused-date', BC.jd_from_badi_date, tuple(g))
            else:
                no(rec, 'refused-date', BC.kvymdhms_from_b_date, tuple(g))
    # Nothing happened to the object.
    rec.eq('unharmed', (x.b_date, hash(x) == hash(cls(*f))),
           (tuple(f), True), f'{f}')
    # Long dates of years outside the range.
    for yy in (M.MIN - 1 - n, M.MAX + 1 + n):
        k, v, z = M.long(yy)
        no(rec, 'refused-date', cls, k, v, z, m, 1)


def run_time(rec, d, t, n, which):
    """One field of a time out of range."""
    tops = 24, 59, 60, 999999
    make = {
        0: lambda *a: D.time(*a),
        1: lambda *a: D.datetime(*d, None, None, *a),
        2: lambda *a: D.datetime(*long_of(d), *a),
        3: lambda *a: D.datetime.combine(mk(d), D.time(*a))}[which]
    x = make(*t)
    rec.eq('accepted', (x.hour, x.minute, x.second, x.microsecond),
           tuple(t), f'{t}')
    if which == 0:
        rec.eq('accepted', ((D.time.min.hour, D.time.min.minute,
                             D.time.min.second, D.time.min.microsecond),
                            D.time.min <= x, x <= D.time.max),
               ((0, 0, 0, 0), True, True), f'time.min and max, {t}')
    for i, top in enumerate(tops):
        for v in (-n, top + n):
            g = list(t)
            g[i] = v
            no(rec, 'refused-time', make, *g)
            no(rec, 'refused-time', x.replace,
               **{('hour', 'minute', 'second', 'microsecond')[i]: v})
            if i < 3:
                no(rec, 'refused-time', BC.jd_from_badi_date,
                   (*d, *[v + (i == 2 and v == 60) if j == i else w
                          for j, w in enumerate(t[:3])]))
    for fold in (2, -1, 7):
        no(rec, 'refused-time', D.time, *t, fold=fold)
        no(rec, 'refused-time', D.datetime, *d, None, None, *t, fold=fold)
        no(rec, 'refused-time', x.replace, fold=fold)
    rec.eq('unharmed', (x.hour, x.minute, x.second, x.microsecond, x.fold),
           (*t, 0), f'{t}')
    # The values at the edge.
    for e in ((0, 0, 0, 0), (23, 59, 59, 999999), (24, 0, 0, 0)):
        x = make(*e)
        rec.eq('accepted', (x.hour, x.minute, x.second, x.microsecond), e,
               f'{e}')


def run_type(rec, d, t, bad, where):
    b = BAD[bad]
    f = [*d, None, None, *t]
    lg = [*long_of(d), *t]
    i = where
    for g, cls in ((f, D.datetime), (lg, D.datetime), (lg[:5], D.date),
                   (f[:3], D.date), (t, D.time)):
        j = i % len(g)
        if g[j] is None or b is None and len(g) == 9 and g is f:
            continue
        if b is None and (j < 3 and g is not t) and len(g) in (3, 5, 9):
            # A missing field of a date.
            pass
        h = list(g)
        h[j] = b
        no(rec, 'refused-type', cls, *h)
    for v in ('tz', 5, dt.timedelta(0), D.timezone, True, 3.5):
        no(rec, 'refused-zone', D.datetime, *f, tzinfo=v)
        no(rec, 'refused-zone', D.time, *t, tzinfo=v)
    no(rec, 'refused-type', D.date, *[INF if j == i % 3 else v
                                      for j, v in enumerate(d)])
    no(rec, 'refused-type', D.datetime.combine, f, D.time())
    no(rec, 'refused-type', D.datetime.combine, D.date(*d), t)
    no(rec, 'refused-type', D.date.fromisoformat, b)
    no(rec, 'refused-type', D.datetime.fromisoformat, b)
    no(rec, 'refused-type', D.time.fromisoformat, b)
    no(rec, 'refused-type', D.datetime.fromtimestamp, 0, b
       if b is not None else 'x')
    if not isinstance(b, str):
        no(rec, 'refused-type', D.date(*d).__format__, b)
        no(rec, 'refused-type', D.time(*t).__format__, b)
    no(rec, 'refused-type', D.timezone, b)
    no(rec, 'refused-type', D.timezone, dt.timedelta(hours=1), 5)


def run_count(rec, d, mask):
    """Fields are missing."""
    lg = long_of(d)
    for cls in (D.date, D.datetime):
        no(rec, 'refused-count', cls, *d[:2])
        no(rec, 'refused-count', cls, d[0])
        no(rec, 'refused-count', cls)
        no(rec, 'refused-count', cls, *lg[:4])
        no(rec, 'refused-count', cls, None, None, None, None, None)
        g = [v if mask >> i & 1 else None for i, v in enumerate(lg)]
        n = sum(v is not None for v in g)
        if n not in (3, 5):
            no(rec, 'refused-count', cls, *g)
    no(rec, 'refused-count', D.date, *lg, 1)
    no(rec, 'refused-count', D.date(*d).replace, kull_i_shay=1)
    no(rec, 'refused-count', D.date(*d).replace, vahid=1)
    no(rec, 'refused-count', D.datetime(*d).replace, kull_i_shay=1)
    no(rec, 'refused-count', D.date(*lg).replace, year=20)
    no(rec, 'refused-count', D.date(*lg).replace, year=0)


def run_fraction(rec, d, t, f, short):
    """A fraction of an hour, minute, or second."""
    h, m, s = t[:3]
    base = [*d, None, None] if short else [*long_of(d)]
    for args, exact, tol in (((h + f,), (h + f) * 3600, 1e-4),
                             ((h, m + f), h * 3600 + (m + f) * 60, 2e-6),
                             ((h, m, s + f), h * 3600 + m * 60 + s + f,
                              2e-6)):
        if args[-1] % 1 == 0:
            continue
        x = D.datetime(*base, *args)
        bt = x.b_time
        got = bt[0] * 3600 + bt[1] * 60 + bt[2] + bt[3] / 1e6
        rec.expect(abs(got - exact) < tol
                   and all(isinstance(v, int) for v in bt)
                   and 0 <= bt[0] < 24 and 0 <= bt[1] < 60
                   and 0 <= bt[2] < 60 and 0 <= bt[3] < 10 ** 6
                   and bt == (x.hour, x.minute, x.second, x.microsecond),
                   'fraction', 'fraction', lambda: f'{args}: {bt}')
        if len(args) < 3:
            for low in ((1,), (0.5,), (0, 1)):
                no(rec, 'refused-fraction', D.datetime, *base, *args, *low)
        no(rec, 'refused-fraction', D.datetime, *base, *args,
           **({'microsecond': 1}))
    no(rec, 'refused-fraction', BC.jd_from_badi_date, (*d[:2], d[2] + 0.25,
                                                       1))
    no(rec, 'refused-fraction', BC.jd_from_badi_date, (*d, h + 0.5, 1))
    no(rec, 'refused-fraction', BC.jd_from_badi_date, (*d, h, m + 0.5, 1))


def run_tuple(rec, d, t, short):
    """Time tuples with a field out of range are not formatted."""
    base = list(d if short else long_of(d)) + t[:3] + [3, 100, -1]
    k = len(base) - 9
    r = T.strftime('%H:%M:%S', tuple(base))
    rec.eq('accepted', r, '{:02}:{:02}:{:02}'.format(*t), f'{base}')
    lims = [(0, 19), (1, 19 if d[1] else M.ayyam(d[0])), (0, 24), (0, 59),
            (0, 61), (0, 6), (1, 366), (-1, 1)]
    for i, (lo, hi) in enumerate(lims, 1):
        for v in (lo - 1, hi + 1):
            g = list(base)
            g[k + i] = v
            no(rec, 'refused-tuple', T.strftime, '%H', tuple(g))
    for g in (base[1:], base + [0], list(base), None, 'x' * 9):
        no(rec, 'refused-tuple', T.strftime, '%H', tuple(g)
           if g is not None and g != base and not isinstance(g, str) else g)
    no(rec, 'refused-tuple', T.strftime, '%H', tuple(
        [M.MAX + 2 if short else 7] + base[1:]))
    for fmt in ('', '%', '%-', '%Q', '%E', '%-Q', '%:d', '%:', '%-Y', '%1'):
        if fmt == '%':
            continue
        no(rec, 'refused-tuple', T.strftime, fmt, tuple(base))


def run_zone(rec, d, t, k):
    h = dt.timedelta(hours=24)
    us = dt.timedelta(microseconds=1)
    for o in (h, -h, h + k * us, -h - k * us, 2 * h, dt.timedelta.max,
              dt.timedelta.min):
        no(rec, 'refused-zone', D.timezone, o)
    for o in (h - us, -h + us, us, -us):
        z = D.timezone(o)
        x = D.datetime(*d, None, None, *t, tzinfo=z)
        rec.eq('accepted', (z.utcoffset(None), x.utcoffset()), (o, o), f'{o}')

    class Bad(dt.tzinfo):
        def utcoffset(self, d):
            return (h, -h, 5, 'x', 3.5)[k]

        def dst(self, d):
            return (h, -h, 5, 'x', 3.5)[k]

        def tzname(self, d):
            return 5

    x = D.datetime(*d, None, None, *t, tzinfo=Bad())
    y = D.time(*t, tzinfo=Bad())
    for o in (x, y):
        no(rec, 'refused-zone', o.utcoffset)
        no(rec, 'refused-zone', o.dst)
        no(rec, 'refused-zone', o.tzname)
        no(rec, 'refused-zone', o.isoformat)


def run_ordinal(rec, n):
    for o in (M.MINORD - 1 - n - 366, M.MAXORD + 366 + n):
        no(rec, 'refused-ordinal', D.date.fromordinal, o)
    for x in (D.date.max, D.datetime.max):
        if n > 365:
            no(rec, 'refused-ordinal', lambda: x + dt.timedelta(days=n))
    for x in (D.date.min, D.datetime.min):
        if n > 365:
            no(rec, 'refused-ordinal', lambda: x - dt.timedelta(days=n))
