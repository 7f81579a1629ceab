"""Time tuples (timetuple, utctimetuple) and ctime."""
import datetime as dt
import random

from .. import core
from ..api import (D, M, ST, T, PLACES, day, gap, hms, is_fudge, mk, mkdt,
                   moment, turn, usec)

PROP = 'C16'
RULE = ('cases are (date, time, offset, form); the oracle is the reference '
        'calendar and integer seconds; distinct: the moments')
ASSUMPTIONS = ['the years -1796, -1792 and -1788 (C03) and the days of the '
               'reform gap are not drawn where days are counted',
               'the offset field of UTC may be None or 0']
REQUIRED = {'timetuple': 8000, 'utc': 8000, 'ctime': 8000, 'dst': 1500,
            'struct': 3000, 'turn': 5000, 'late': 1000, 'every-day': 20000}


def gen(rng, tier, part, parts):
    n = 3 if tier == 'quick' else 40
    for y in core.share(range(M.MIN, M.MAX + 1), part, parts):
        yield ['year', y, [rng.randint(1, 365) for _ in range(n)]]
    for i in range(150 if tier == 'quick' else 1800):
        while True:
            d = day(rng)
            if not gap(d) and not is_fudge(d[0]):
                break
        t = [*hms(rng), usec(rng)]
        off = rng.choice((0, 3600, -3600, 12600, 86399, -86399, 1, -1,
                          rng.randint(-86399, 86399),
                          60 * rng.randint(-1439, 1439)))
        yield ['moment', d, t, off, rng.randrange(2)]
        if i % 3 == 0:
            yield ['dst', d, t, rng.choice((-7200, -1800, 1800, 3600, 7200)),
                   off, rng.randrange(2)]
            yield ['late', d, [24, rng.choice((0, 1, 59)),
                               rng.choice((0, 3, rng.randrange(60)))],
                   rng.randrange(2)]
            yield ['turn', d, t, rng.randrange(1 << 30)]
            yield ['struct', d, t, rng.randrange(-1, 2), rng.randrange(2)]


def run(rec, case):
    globals()['run_' + case[0]](rec, *case[1:])


def fields(d, short):
    return tuple(d) if short else M.long(d[0]) + tuple(d[1:])


def names(tt):
    """The named fields, and that they are those of the tuple."""
    n = ('tm_year', 'tm_mon', 'tm_mday', 'tm_hour', 'tm_min', 'tm_sec',
         'tm_wday', 'tm_yday', 'tm_isdst', 'tm_zone', 'tm_gmtoff')
    if not tt.short:
        n = ('tm_kull_i_shay', 'tm_vahid') + n
    return tuple(getattr(tt, k) for k in n)


def want(d, t, short, isdst):
    return fields(d, short) + tuple(t[:3]) + (
        M.weekday(M.ordinal(*d)), M.yday(*d), isdst)


def judge(rec, event, tt, d, t, short, isdst, zone, off, text):
    rec.eq(event, tuple(tt)[:-2], want(d, t, short, isdst), text)
    rec.eq(event, names(tt), tuple(tt), text)
    rec.eq(event, (tt.short, tt[-2], tt[-1] or 0),
           (bool(short), zone, off), text)


def ctime(d, t):
    y = f'{d[0]:04d}' if d[0] >= 0 else f'-{-d[0]:04d}'
    return (f'{D.DAYNAMES[M.weekday(M.ordinal(*d))]} {T.MONTHNAMES[d[1]]} '
            f'{d[2]:2d} {t[0]:02d}:{t[1]:02d}:{t[2]:02d} {y}')


def run_year(rec, y, ns):
    if is_fudge(y):
        return
    leap = M.leap(y)
    for n in [1, 2, 19, 20, 342, 343, 346, 346 + leap, 347 + leap,
              365 + leap] + ns:
        d = M.from_yday(y, n)
        if gap(d):
            continue
        for short in (True, False):
            x = mk(d, short)
            judge(rec, 'every-day', x.timetuple(), d, (0, 0, 0), short, -1,
                  None, 0, f'{x!r}.timetuple()')
            rec.eq('ctime', x.ctime(), ctime(d, (0, 0, 0)), f'{x!r}.ctime()')


def run_late(rec, d, t, short):
    """The hour 24 at the end of a long day belongs to that day."""
    d = tuple(d)
    x = mkdt(d, (*t, 0), short)
    judge(rec, 'late', x.timetuple(), d, t, short, -1, None, 0, f'{x!r}')
    judge(rec, 'late', x.utctimetuple(), d, t, short, 0, None, 0,
          f'{x!r} utc')
    rec.eq('late', x.ctime(), ctime(d, t), f'{x!r}.ctime()')


def run_moment(rec, d, t, off, short):
    d = tuple(d)
    rec.state(d, t, off)
    x = mkdt(d, t, short)
    judge(rec, 'timetuple', x.timetuple(), d, t, short, -1, None, 0, f'{x!r}')
    judge(rec, 'utc', x.utctimetuple(), d, t, short, 0, None, 0,
          f'{x!r} utc')
    rec.eq('ctime', x.ctime(), ctime(d, t), f'{x!r}.ctime()')
    n = (M.ordinal(*d) * 86400 + t[0] * 3600 + t[1] * 60 + t[2] - off)
    o, s = divmod(n, 86400)
    inside = M.MINORD <= o <= M.MAXORD
    if inside:
        u = M.from_ordinal(o)
        inside = not gap(u) and not is_fudge(u[0])
    ut = s // 3600, s // 60 % 60, s % 60
    delta = dt.timedelta(seconds=off)
    for tz, zone in ((D.timezone(delta, 'Za'), 'Za'),
                     (D.timezone(delta), None)):
        x = mkdt(d, t, short, tz)
        tt = x.timetuple()
        if zone is None:
            zone = tt.tm_zone
            rec.eq('timetuple', zone, x.tzname(), 'zone name')
        # UTC itself reports that it has no summer time.
        judge(rec, 'timetuple', tt, d, t, short,
              0 if tz is D.timezone.utc else -1, zone, off, f'{x!r}')
        if inside:
            judge(rec, 'utc', x.utctimetuple(), u, ut, short, 0, None, 0,
                  f'{x!r} utc')
        rec.eq('ctime', x.ctime(), ctime(d, t), f'{x!r}.ctime()')
        rec.eq('timetuple', x.b_time, tuple(t), 'changed')
    p = PLACES['Raleigh']
    tz = D.TZWithCoords(*p, key='R')
    x = mkdt(d, t, short, tz)
    judge(rec, 'timetuple', x.timetuple(), d, t, short, 0, 'R', -18000,
          f'{x!r}')


class Summer(dt.tzinfo):
    def __init__(self, dst, off):
        self._d, self._o = dst, off

    def dst(self, d):
        return dt.timedelta(seconds=self._d)

    def utcoffset(self, d):
        return dt.timedelta(seconds=self._o)

    def tzname(self, d):
        return 'Summer'


def run_dst(rec, d, t, dst, off, short):
    d = tuple(d)
    x = mkdt(d, t, short, Summer(dst, off))
    judge(rec, 'dst', x.timetuple(), d, t, short, 1, 'Summer', off, f'{x!r}')
    x = mkdt(d, t, short, Summer(0, off))
    judge(rec, 'dst', x.timetuple(), d, t, short, 0, 'Summer', off, f'{x!r}')
    y = x.replace(tzinfo=Summer(dst, off))
    rec.eq('dst', (y.dst(), y.utcoffset(), x.dst()),
           (dt.timedelta(seconds=dst), dt.timedelta(seconds=off),
            dt.timedelta(0)), f'{y!r}')
    y = y.timetz()
    rec.eq('dst', (y.dst(), y.utcoffset(), y.tzname()),
           (dt.timedelta(seconds=dst), dt.timedelta(seconds=off), 'Summer'),
           f'{y.isoformat()}')


def run_turn(rec, d, t, seed):
    """Both folds in a zone whose offset changes near the moment."""
    d = tuple(d)
    n = moment(d, t)
    z = turn(random.Random(seed), n)
    o = {M.from_ordinal((n + s * 10 ** 6) // (86400 * 10 ** 6))
         for s in (-86400, 0, 86400)
         if M.MINORD < n // (86400 * 10 ** 6) < M.MAXORD}
    if not o or any(gap(u) or is_fudge(u[0]) for u in o):
        return
    for short in (True, False):
        for fold in (0, 1):
            x = mkdt(d, t, short, z, fold)
            rec.ok('turn-double', z.double(x))
            off = z.seconds(x)
            judge(rec, 'turn', x.timetuple(), d, t, short, int(bool(z.dst(x))),
                  z.tzname(x), off, f'{x!r}')
            u, s = divmod(n // 10 ** 6 - off, 86400)
            judge(rec, 'turn', x.utctimetuple(), M.from_ordinal(u),
                  (s // 3600, s // 60 % 60, s % 60), short, 0, None, 0,
                  f'{x!r} utc')


def run_struct(rec, d, t, isdst, short):
    """The structures themselves."""
    base = fields(d, short) + tuple(t[:3]) + (
        M.weekday(M.ordinal(*d)), M.yday(*d), isdst)
    s = ST.struct_time(base)
    rec.eq('struct', (tuple(s), s.short), (base + (None, None), bool(short)),
           f'{base}')
    rec.eq('struct', names(s), tuple(s), f'{base}')
    r = repr(s)
    rec.expect(all(f'{k}={v}' in r for k, v in s._asdict().items()
                   if k not in ('tm_zone', 'tm_gmtoff')), 'struct', 'struct',
               lambda: r)
    z = D.timezone(dt.timedelta(hours=2), 'Q')
    s = ST.struct_time(base, tzinfo=z)
    rec.eq('struct', tuple(s), base + ('Q', 7200), f'{base}')
    for bad in (-2, 2, 5):
        rec.raises('struct', (ValueError, AssertionError), ST.struct_time,
                   base[:-1] + (bad,))
    for b in (base[1:], base + (0,), ()):
        rec.raises('struct', (TypeError, ValueError, AssertionError,
                              IndexError), ST.struct_time, b)
