"""Dates and their ordinals: a bijection that counts days."""
import datetime as dt

from .. import core
from ..api import D, M, is_fudge, long_of, ymd

PROP = 'C03'
RULE = ('one case per Badi year with a set of its days: every edge day and '
        'random others (quick), every day (thorough, all 1.097 million); '
        'toordinal, fromordinal, weekday, isoweekday of both forms against '
        'the reference calendar; distinct: the days')
ASSUMPTIONS = ['the committed table of year starts (decided by C01)',
               'the ten days (-261, 11, 9) to (-261, 11, 18) that the '
               'Gregorian reform dropped have no Julian day and are refused '
               'by design; they are not in the domain']
REQUIRED = {'toordinal': 50000, 'fromordinal': 50000, 'weekday': 20000,
            'difference': 5000, 'out-of-range': 4}


def gen(rng, tier, part, parts):
    if part == 0:
        yield ['ends']
    for y in core.share(range(M.MIN, M.MAX + 1), part, parts):
        n = 365 + M.leap(y)
        if tier == 'thorough':
            ns = list(range(1, n + 1))
        else:
            ns = sorted({M.yday(*d) for d in M.edge_days(y)}
                        | {rng.randint(1, n) for _ in range(5)})
        yield ['year', y, ns]


def run(rec, case):
    if case[0] == 'ends':
        return ends(rec)
    _, y, ns = case
    for n in ns:
        d = M.from_yday(y, n)
        if d[0] == -261 and d[1] == 11 and 9 <= d[2] <= 18:
            continue
        rec.state(d)
        o = M.ordinal(*d)
        x = D.date(*d)
        got = x.toordinal()
        fudge = is_fudge(y) and got == o + 1
        if fudge:
            rec.bad('fudge-ordinal', f'{d}: ordinal {got}, the day is {o}')
        else:
            rec.eq('toordinal', got, o, f'{d}')
        if n % 5 == 0:
            rec.eq('toordinal', D.date(*long_of(d)).toordinal(), got,
                   f'{long_of(d)}')
            rec.eq('toordinal',
                   D.datetime(*d, None, None, 23, 59, 59).toordinal(), got,
                   f'{d} 23:59:59')
        short = bool(n % 2)
        back = D.date.fromordinal(o, short=short)
        if not (d[0] == -261 and d[1:] == (11, 19)):
            rec.eq('fromordinal', ymd(back), d, f'ordinal {o}')
            rec.expect(back.is_short == short, 'form', 'form',
                       f'fromordinal({o}, short={short})')
            rec.expect(type(back) is D.date, 'type', 'type',
                       lambda: f'{type(back)}')
        if not fudge:
            rec.eq('weekday', x.weekday(), M.weekday(o), f'{d}')
            if n % 3 == 0:
                rec.eq('weekday', x.isoweekday(), M.weekday(o) + 1, f'{d}')
                rec.eq('weekday', D.date(*long_of(d)).weekday(),
                       M.weekday(o), f'{long_of(d)}')
        if y >= -1700 and n % 7 == 0:
            e = M.from_ordinal(max(o - n * 3, M.START[-1700]))
            if not (e[0] == -261 and e[1] == 11 and 9 <= e[2] <= 18):
                rec.eq('difference', x - D.date(*e),
                       dt.timedelta(o - M.ordinal(*e)), f'{d} - {e}')
        if y in (175, 176) and n in (343, 366):
            rec.sample('toordinal', f'{d} <-> {o}, weekday {x.weekday()}')


def ends(rec):
    rec.eq('ends', D.date.max.toordinal(), M.MAXORD, 'date.max')
    rec.eq('ends', D.date.min.toordinal(), M.MINORD, 'date.min')
    rec.eq('ends', (D.date.longmin.toordinal(), D.date.longmax.toordinal(),
                    D.datetime.min.toordinal(), D.datetime.max.toordinal()),
           (M.MINORD, M.MAXORD, M.MINORD, M.MAXORD), 'longmin and longmax')
    rec.eq('ends', (D.date.resolution, D.datetime.resolution,
                    D.time.resolution),
           (dt.timedelta(1), dt.timedelta(microseconds=1),
            dt.timedelta(microseconds=1)), 'resolution')
    for f in (D.date.min, D.date.longmin):
        rec.raises('out-of-range', OverflowError, lambda: f - dt.timedelta(1))
    for f in (D.date.max, D.date.longmax):
        rec.raises('out-of-range', OverflowError, lambda: f + dt.timedelta(1))
    rec.raises('out-of-range', (AssertionError, ValueError, OverflowError),
               D.date.fromordinal, M.MAXORD + 400)
    rec.raises('out-of-range', (AssertionError, ValueError, OverflowError),
               D.date.fromordinal, M.MINORD - 400)
