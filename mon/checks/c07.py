"""The long form (Kull-i-Shay, Vahid, year) and the year number."""
from .. import core
from ..api import BC, D, M, gap, hms, usec

PROP = 'C07'
RULE = ('every year of the range in both tiers, with random months, days and '
        'times; long_date_from_short_date, short_date_from_long_date, '
        'kvymdhms_from_b_date, date_from_kvymdhms and the objects of both '
        'forms against integer arithmetic; distinct: (year, month, day)')
ASSUMPTIONS = ['times are compared to 0.1 s where a day is given as a '
               'fraction of 6 decimals']
REQUIRED = {'long': 6000, 'short': 6000, 'equal': 3000, 'fraction': 3000,
            'part-day': 9000,
            'refused': 1000, 'late': 20000}


def gen(rng, tier, part, parts):
    k = 3 if tier == 'quick' else 40
    for y in core.share(range(M.MIN, M.MAX + 1), part, parts):
        yield ['year', y, [[rng.randint(1, 365 + M.leap(y)), *hms(rng),
                            usec(rng) if i % 2 else 0] for i in range(k)]]
    if part == 0:
        yield ['bad']


def run(rec, case):
    if case[0] == 'bad':
        return bad(rec)
    _, y, picks = case
    k, v, yy = M.long(y)
    assert M.short(k, v, yy) == y
    for n, *t in picks + [[1, 0, 0, 0, 0], [342 + M.ayyam(y), 0, 0, 0, 0]]:
        d = M.from_yday(y, n)
        t = tuple(t)
        lg = (k, v, yy) + d[1:]
        rec.state(d)
        rec.eq('long', BC.long_date_from_short_date(d, trim=True), lg,
               f'{d}')
        rec.eq('short', BC.short_date_from_long_date(lg, trim=True), d,
               f'{lg}')
        rec.eq('long', BC.long_date_from_short_date(d + t), lg + t,
               f'{d + t}')
        rec.eq('short', BC.short_date_from_long_date(lg + t), d + t,
               f'{lg + t}')
        x, z = D.date(*d), D.date(*lg)
        rec.expect(x == z and z == x and hash(x) == hash(z)
                   and not x < z and not x > z and x <= z and x >= z,
                   'equal', 'equal', lambda: f'{x!r} and {z!r}')
        rec.eq('fields', (z.kull_i_shay, z.vahid, z.year, z.month, z.day,
                          z.is_short, x.is_short, x.year, x.month, x.day),
               lg + (False, True) + d, f'{d}')
        rec.eq('b-date', (x.b_date, z.b_date), (d, lg), f'{d}')
        a = D.datetime(*d, None, None, *t)
        b = D.datetime(*lg, *t)
        rec.expect(a == b and hash(a) == hash(b) and not a < b
                   and not b < a, 'equal', 'equal-datetime',
                   lambda: f'{a!r} and {b!r}')
        rec.eq('isoformat', (z.isoformat(), b.isoformat()),
               (x.isoformat(), a.isoformat()), f'{d} {t}')
        rec.eq('ordinal', z.toordinal(), x.toordinal(), f'{d}')
        rec.eq('weekday', z.weekday(), x.weekday(), f'{d}')
        # The time as a fraction of the day, and back.
        f = BC.date_from_kvymdhms(lg + t)
        s = t[0] * 3600 + t[1] * 60 + t[2] + t[3] / 1e6
        rec.expect(f[:4] == lg[:4] and abs((f[4] - lg[4]) * 86400 - s) < 0.1,
                   'fraction', 'fraction', lambda: f'{lg + t}: {f}')
        if s < 86399:
            w = BC.date_from_kvymdhms(lg + t, short=True)
            rec.eq('part-day', w, d[:2] + f[4:], f'{lg + t} short')
            w = BC.short_date_from_long_date(f, trim=True)
            rec.eq('part-day', w, d[:2] + f[4:], f'{f}')
            w = BC.long_date_from_short_date(w, trim=True)
            rec.eq('part-day', w, f, f'{d[:2] + f[4:]}')
            q = BC.kvymdhms_from_b_date(f, us=True)
            qs = q[5] * 3600 + q[6] * 60 + q[7] + q[8] / 1e6
            rec.expect(q[:5] == lg and abs(qs - s) < 0.1, 'fraction',
                       'fraction-back', lambda: f'{lg + t}: {f}: {q}')
            # A part of the day and no time, spelt in full or not.
            for o in ((0,), (0, 0), (0, 0, 0)):
                rec.eq('part-day', BC.kvymdhms_from_b_date(f + o, us=True),
                       q, f'{f + o}')
                rec.eq('part-day', BC.kvymdhms_from_b_date(
                    f + o, short=True), BC.kvymdhms_from_b_date(
                    f, short=True), f'{f + o} short')
        w = BC.kvymdhms_from_b_date(lg + t[:2] + (t[2] + t[3] / 1e6,),
                                    us=True)
        rec.eq('us', w, lg + t, f'{lg + t}')
        w = BC.kvymdhms_from_b_date(lg + t[:2] + (t[2] + t[3] / 1e6,),
                                    us=True, short=True)
        rec.eq('us', w, d + t, f'{lg + t} short')
        # The same from the whole and the parts of the second apart.
        for o in (t, (0, 0, 0, t[3]), (t[0], 0, 0, t[3])):
            w = BC.kvymdhms_from_b_date(lg + o, us=True)
            rec.eq('us', w, lg + o, f'{lg + o}')
            w = BC.kvymdhms_from_b_date(lg + o, short=True)
            rec.eq('us', w, d + o[:2] + (round(o[2] + o[3] / 1e6, 6), 0),
                   f'{lg + o} short')
        late(rec, d, lg, (24, t[1] % 2, t[2], t[3]))
        if n == 1 and y in (1, 361, 362, 175, 0, -360):
            rec.sample('long', f'{d} is {lg}')


def late(rec, d, lg, t):
    """The hour 24 at the end of a long day."""
    rec.eq('late', BC.long_date_from_short_date(d + t), lg + t, f'{d + t}')
    a = D.datetime(*d, None, None, *t)
    b = D.datetime(*lg, *t)
    rec.expect(a == b and hash(a) == hash(b) and not a < b and not b < a,
               'late', 'late-equal', lambda: f'{a!r} and {b!r}')
    rec.eq('late', (a.isoformat(), a.ctime(), a.toordinal()),
           (b.isoformat(), b.ctime(), b.toordinal()), f'{d} {t}')
    if gap(d):
        return
    got = BC.short_date_from_long_date(lg + t)
    text = f'{lg + t}: {got}'
    rec.ok('late')
    y, m, dd = d
    if dd < (M.ayyam(y) if m == 0 else 19):
        nxt = y, m, dd + 1
    elif m == 0:
        nxt = y, 19, 1
    else:
        nxt = (y, m + 1, 19) if m < 19 else (y + 1, 1, 19)
    if got == nxt + (23,) + t[1:]:
        rec.bad('carry-of-24-hours', text)
    elif got != d + t:
        rec.bad('late', text)


def bad(rec):
    """No such long dates."""
    exc = (AssertionError, ValueError)
    for k in range(-4, 4):
        for v in (0, 20, -1):
            for cls in (D.date, D.datetime):
                rec.raises('refused', exc, cls, k, v, 1, 1, 1)
                rec.raises('refused', exc, cls, k, 1, v, 1, 1)
        for y in range(1, 20):
            for v in range(1, 20):
                n = M.ayyam(M.short(k, v, y))
                rec.raises('refused', exc, D.date, k, v, y, 0, n + 1)
                rec.eq('ayyam', D.date(k, v, y, 0, n).day, n, (k, v, y))
    for k in (-7, 6):
        rec.raises('refused', exc, D.date, k, 1, 1, 1, 1)
