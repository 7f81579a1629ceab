"""Datetime objects: arithmetic, order, hash, zones, parts, replace."""
import datetime as dt
import operator
import random

from ..api import (D, M, day, gap, hms, is_fudge, long_of, mk, mkdt, usec,
                   turn, ymd)

PROP = 'C13'
RULE = ('cases are (datetime, datetime, duration, zones); the oracle counts '
        'microseconds of 24-hour days on the reference calendar; distinct: '
        'the pairs of moments')
ASSUMPTIONS = ['durations count days of 24 hours, as documented',
               'the years -1796, -1792 and -1788 (C03) and the days of the '
               'reform gap are not drawn']
REQUIRED = {'add': 4000, 'sub': 4000, 'order': 30000, 'hash': 3000,
            'astimezone': 2000, 'local': 1500, 'combine': 2000, 'replace': 2000,
            'turn': 4000, 'overflow': 1000, 'parts': 3000, 'mixed': 2000, 'sort': 300}
OPS = (operator.lt, operator.le, operator.eq, operator.ne, operator.gt,
       operator.ge)
DAY = 86400 * 10 ** 6
US = dt.timedelta(microseconds=1)


class Sub(D.datetime):
    pass


def draw(rng, y=None):
    while True:
        d = day(rng, y)
        if not (gap(d) or is_fudge(d[0])):
            return d


def total(d, t):
    return M.ordinal(*d) * DAY + ((t[0] * 60 + t[1]) * 60 + t[2]) * 10 ** 6 \
        + t[3]


def split(n):
    o, us = divmod(n, DAY)
    s, us = divmod(us, 10 ** 6)
    return M.from_ordinal(o), (s // 3600, s // 60 % 60, s % 60, us)


def in_range(n):
    if not M.MINORD <= n // DAY <= M.MAXORD:
        return False
    d = M.from_ordinal(n // DAY)
    return not (gap(d) or is_fudge(d[0]))


def off(rng):
    r = rng.random()
    if r < 0.35:
        return None
    if r < 0.45:
        return 0
    if r < 0.75:
        return 3600 * rng.randint(-12, 14)
    return rng.choice((rng.randint(-86399, 86399), 12600, 20700, -12600, -1,
                       1, 60 * rng.randint(-1439, 1439)))


def tz(o):
    return None if o is None else D.timezone(dt.timedelta(seconds=o))


def gen(rng, tier, part, parts):
    for i in range(60 if tier == 'quick' else 900):
        a = draw(rng)
        ta = [*hms(rng), usec(rng)]
        r = rng.random()
        if r < 0.35:
            n = total(a, ta) + rng.choice((
                rng.randint(-5, 5), rng.randint(-DAY, DAY),
                1000 * rng.randint(-200000, 200000) * 1000))
            b, tb = split(n) if in_range(n) else (a, ta)
        else:
            b = draw(rng, a[0] if r < 0.6 else None)
            tb = [*hms(rng), usec(rng)]
        n = rng.choice((rng.randint(-10, 10), rng.randint(-DAY, DAY),
                        rng.randint(-400 * DAY, 400 * DAY),
                        rng.randint(-400000 * DAY, 400000 * DAY),
                        total(b, tb) - total(a, ta)))
        oa = off(rng)
        ob = oa if rng.random() < 0.3 else off(rng)
        if rng.random() < 0.25 and oa is not None and ob is not None:
            # The same moment in two zones.
            m = total(a, ta) + (ob - oa) * 10 ** 6
            if in_range(m):
                b, tb = split(m)
        yield ['pair', a, ta, b, list(tb), n, oa, ob, rng.randrange(4)]
        yield ['zone', a, ta, 0 if oa is None else oa,
               0 if ob is None else ob, rng.randrange(4)]
        yield ['parts', a, ta, b, list(tb), oa, ob, rng.randrange(512)]
        if i % 3 == 0:
            yield ['turn', a, ta, rng.randrange(1 << 30), oa,
                   rng.randrange(16)]
        if i % 4 == 0:
            yield ['over', a, ta, oa, rng.choice((0, 1, 10 ** 6, DAY,
                                                  10 ** 5 * DAY))]
        if i % 16 == 0:
            yield ['sort', [[draw(rng, a[0] if rng.random() < 0.5 else None),
                             [*hms(rng), usec(rng)], rng.randint(-86399,
                                                                 86399)]
                            for _ in range(25)], rng.random() < 0.5]


def run(rec, case):
    globals()['run_' + case[0]](rec, *case[1:])


def val(x):
    return ymd(x), x.b_time, x.is_short


def run_pair(rec, a, ta, b, tb, n, oa, ob, forms):
    a, ta, b, tb = tuple(a), tuple(ta), tuple(b), tuple(tb)
    x = mkdt(a, ta, forms & 1, tz(oa))
    y = mkdt(b, tb, forms & 2, tz(ob))
    na, nb = total(a, ta), total(b, tb)
    rec.state(na, nb, oa, ob)
    # A naive twin and an equal zone.
    ua = na - (oa or 0) * 10 ** 6
    ub = nb - (ob or 0) * 10 ** 6
    if (oa is None) == (ob is None):
        rec.eq('sub', (x - y) // US, ua - ub, f'{x!r} - {y!r}')
        rec.eq('sub', (y - x) // US, ub - ua, f'{y!r} - {x!r}')
        for op in OPS:
            rec.eq('order', op(x, y), op(ua, ub), f'{op.__name__} {x!r} '
                   f'{y!r}')
            rec.eq('order', op(y, x), op(ub, ua), f'{op.__name__} {y!r} '
                   f'{x!r}')
        if ua == ub:
            rec.eq('hash', hash(x), hash(y), f'hash {x!r} {y!r}')
        rec.eq('set', len({x, y}), 1 if ua == ub else 2, f'{x!r} {y!r}')
    else:
        rec.eq('mixed', (x == y, x != y), (False, True), f'{x!r} {y!r}')
        for op in (operator.lt, operator.le, operator.gt, operator.ge):
            rec.raises('mixed', TypeError, op, x, y)
        rec.raises('mixed', TypeError, operator.sub, x, y)
    twin = mkdt(a, ta, not forms & 1, tz(oa))
    rec.eq('hash', hash(twin), hash(x), f'hash {x!r} {twin!r}')
    rec.eq('order', (x == twin, x < twin, x - twin), (True, False,
                                                      dt.timedelta(0)),
           f'{x!r} {twin!r}')
    # Sums.
    td = dt.timedelta(microseconds=n)
    s = na + n
    if in_range(s):
        want = (*split(s), x.is_short)
        for z, what in ((x + td, '+'), (td + x, 'r+'), (x - -td, '-')):
            rec.eq('add', (*val(z), z.tzinfo is x.tzinfo, type(z)),
                   (*want, True, D.datetime), f'{x!r} {what} {td!r}')
        z = x + td
        rec.eq('inverse', val(z - td), val(x), f'{x!r} + {td!r} - it')
        rec.eq('inverse', z - x, td, f'{x!r} + {td!r} - {x!r}')
        z = Sub(*a, None, None, *ta, tzinfo=tz(oa)) + td
        rec.eq('add-subclass', (*val(z)[:2], type(z)), (*want[:2], Sub),
               f'subclass {x!r} + {td!r}')
    for other in (mk(a), 5, None, 'x', dt.datetime(2024, 1, 1)):
        rec.eq('foreign', (x == other, x != other), (False, True),
               f'{x!r} == {other!r}')
        for op in (operator.lt, operator.le, operator.gt, operator.ge):
            rec.raises('foreign', TypeError, op, x, other)
        rec.raises('foreign', TypeError, operator.add, x, other)
    rec.raises('foreign', TypeError, operator.add, x, y)
    rec.raises('foreign', TypeError, operator.sub, x, 1)
    rec.eq('unchanged', (val(x), val(y)), ((a, ta, bool(forms & 1)),
                                           (b, tb, bool(forms & 2))),
           'operands')


class NoOffset(D.tzinfo):
    def utcoffset(self, when):
        return None


def run_zone(rec, a, ta, oa, ob, forms):
    """Another zone, the same moment."""
    a, ta = tuple(a), tuple(ta)
    x = mkdt(a, ta, forms & 1, tz(oa))
    z = tz(ob)
    n = total(a, ta)
    u = n - oa * 10 ** 6
    w = u + ob * 10 ** 6
    if not (in_range(u) and in_range(w)):
        return
    for t in (z, D.timezone.utc, D.BADI):
        o = t.utcoffset(None) // dt.timedelta(seconds=1)
        if not in_range(u + o * 10 ** 6):
            continue
        y = x.astimezone(t)
        rec.eq('astimezone', (*val(y), y.tzinfo is t),
               (*split(u + o * 10 ** 6), x.is_short, True), f'{x!r} in {t!r}')
        rec.eq('astimezone', (x == y, y - x, hash(x) == hash(y)),
               (True, dt.timedelta(0), True), f'{x!r} in {t!r}')
        back = y.astimezone(x.tzinfo)
        rec.eq('astimezone', val(back), val(x), f'{x!r} to {t!r} and back')
    rec.eq('astimezone', x.astimezone(x.tzinfo) is x, True, f'{x!r}')
    f = mkdt(*split(u), forms & 1, z)
    rec.eq('fromutc', val(z.fromutc(f)), (*split(w), bool(forms & 1)),
           f'fromutc {f!r}')
    rec.raises('fromutc', ValueError, z.fromutc, x.replace(tzinfo=None))
    rec.raises('fromutc', TypeError, z.fromutc, mk(a))
    rec.raises('foreign', TypeError, x.astimezone, 3)
    rec.eq('utcoffset', (x.utcoffset(), x.dst() or None),
           (dt.timedelta(seconds=oa), None), f'{x!r}')
    rec.eq('utcoffset', x.tzname(), x.tzinfo.tzname(x), f'{x!r}')
    naive = x.replace(tzinfo=None)
    lo = D.LOCAL.utcoffset(None) // dt.timedelta(microseconds=1)
    if in_range(n - lo) and in_range(n - lo + ob * 10 ** 6) \
            and in_range(u + lo):
        for y in (naive, x.replace(tzinfo=NoOffset())):
            y = y.astimezone(z)
            rec.eq('local', (*val(y), y.tzinfo is z),
                   (*split(n - lo + ob * 10 ** 6), x.is_short, True),
                   f'{naive!r} in {z!r}')
        y = naive.astimezone()
        rec.eq('local', (*val(y), y.utcoffset()), (
            *val(x), D.LOCAL.utcoffset(None)), f'{naive!r} here')
        y = x.astimezone()
        rec.eq('local', (*val(y), y.utcoffset()), (
            *split(u + lo), x.is_short, D.LOCAL.utcoffset(None)),
            f'{x!r} here')
    rec.eq('utcoffset', (naive.utcoffset(), naive.dst(), naive.tzname()),
           (None, None, None), f'{naive!r}')


def run_turn(rec, a, ta, seed, oa, forms):
    """A zone whose offset changes near the moment."""
    a, ta = tuple(a), tuple(ta)
    rng = random.Random(seed)
    n = total(a, ta)
    z = turn(rng, n)
    x, y = (mkdt(a, ta, forms & 1, z, f) for f in (0, 1))
    rec.ok('turn-double', z.double(x))
    m = n + rng.choice((0, 1, rng.randint(-4, 4) * 3600 * 10 ** 6,
                        rng.randint(-DAY, DAY)))
    if not in_range(m) or not all(in_range(k + s * 3600 * 10 ** 6)
                                  for k in (n, m) for s in (-15, 15)):
        return
    # In one zone the clock counts, and not the fold.
    w = mkdt(*split(m), forms & 2, z, forms >> 2 & 1)
    for v in (x, y):
        rec.eq('turn', (v - w) // US, n - m, f'{v!r} - {w!r}')
        rec.eq('turn', [op(v, w) for op in OPS], [op(n, m) for op in OPS],
               f'{v!r} {w!r}')
        rec.eq('turn', len({v, w}), 1 + (n != m), f'{v!r} {w!r}')
        rec.eq('turn', v.utcoffset(), z.utcoffset(v), f'{v!r}')
        t = v + dt.timedelta(microseconds=m - n)
        rec.eq('turn', (*val(t), t.tzinfo is z),
               (*split(m), v.is_short, True), f'{v!r} + {m - n}')
    rec.eq('turn', (x == y, hash(x) == hash(y), x - y),
           (True, True, dt.timedelta(0)), f'{x!r} {y!r}')
    # In two zones it is the moment.
    fixed = tz(oa or 0)
    u = m - (oa or 0) * 10 ** 6
    f = mkdt(*split(m), forms & 2, fixed)
    for v in (x, y):
        k = n - z.seconds(v) * 10 ** 6
        rec.eq('turn', ((v - f) // US, (f - v) // US), (k - u, u - k),
               f'{v!r} - {f!r}')
        if z.double(v):         # never equal to a moment of another zone
            rec.expect(v != f or k == u and hash(v) == hash(f), 'turn',
                       'turn', lambda: f'{v!r} == {f!r}')
        else:
            rec.eq('turn', [op(v, f) for op in OPS], [op(k, u) for op in OPS],
                   f'{v!r} {f!r}')
            rec.eq('turn', len({v, f}), 1 + (k != u), f'{v!r} {f!r}')
        rec.eq('turn', (v < f, f < v), (k < u, u < k), f'{v!r} {f!r}')
        g = v.astimezone(fixed)
        rec.eq('turn', (*val(g), g.tzinfo is fixed),
               (*split(k + (oa or 0) * 10 ** 6), v.is_short, True),
               f'{v!r} in {fixed!r}')
        rec.expect(abs(v.timestamp() - x.timestamp() - z.seconds(x)
                       + z.seconds(v)) < 1e-3, 'turn', 'turn',
                   lambda: f'timestamp of {v!r}')
        back = g.astimezone(z)
        if z.after < z.before or not z.double(v):
            rec.eq('turn', (*val(back), back.fold), (
                *val(v), v.fold if z.double(v) else 0),
                f'{v!r} to {fixed!r} and back')
        rec.eq('turn', (back - f) // US, k - u, f'{v!r}, {back!r}')


def run_parts(rec, a, ta, b, tb, oa, ob, which):
    a, ta, b, tb = tuple(a), tuple(ta), tuple(b), tuple(tb)
    fold = which & 1
    for short in (True, False):
        x = mkdt(a, ta, short, tz(oa), fold)
        dd, tt, tt2 = x.date(), x.time(), x.timetz()
        rec.eq('parts', (ymd(dd), dd.is_short, type(dd)), (a, short, D.date),
               f'date of {x!r}')
        for t, w in ((tt, None), (tt2, x.tzinfo)):
            rec.eq('parts', (t.hour, t.minute, t.second, t.microsecond,
                             t.fold, t.tzinfo), (*ta, fold, w),
                   f'time of {x!r}')
        rec.eq('parts', (x.hour, x.minute, x.second, x.microsecond, x.fold,
                         x.b_time, x.b_date, x.tzinfo is tt2.tzinfo),
               (*ta, fold, ta, a if short else long_of(a), True), f'{x!r}')
        rec.eq('parts', (x.toordinal(), x.weekday()),
               (M.ordinal(*a), M.weekday(M.ordinal(*a))), f'{x!r}')
        for z in (D.datetime.combine(dd, tt2), D.datetime.combine(x, tt2),
                  D.datetime.combine(dd, tt, tz(oa)),
                  Sub.combine(dd, tt2)):
            rec.eq('combine', (*val(z), z.fold, z.utcoffset()),
                   (a, ta, short, fold, x.utcoffset()), f'{x!r}')
        rec.eq('combine', type(z), Sub, 'subclass')
        z = D.datetime.combine(dd, tt2, None)
        rec.eq('combine', (*val(z), z.tzinfo), (a, ta, short, None), f'{x!r}')
        z = D.datetime.combine(dd, D.time(*tb), tz(ob))
        rec.eq('combine', (*val(z), z.utcoffset()),
               (a, tb, short, None if ob is None else
                dt.timedelta(seconds=ob)), f'{x!r}')
        # Only the named fields change.
        names = ('month', 'day', 'hour', 'minute', 'second', 'microsecond')
        src = [*b[1:], *tb]
        kw = {k: v for i, (k, v) in enumerate(zip(names, src))
              if which >> i & 2}
        want = [kw.get(k, v) for k, v in zip(names, [*a[1:], *ta])]
        y = a[0]
        if which & 256:
            if short:
                y = kw['year'] = b[0]
            else:
                lg = list(M.long(y))
                lg[1] = kw['vahid'] = M.long(b[0])[1]
                y = M.short(*lg)
        top = 19 if want[0] or not M.MIN <= y <= M.MAX else M.ayyam(y)
        if y in (M.MIN - 1, M.MAX + 1):
            pass                    # neither accepted nor refused for sure
        elif M.MIN <= y <= M.MAX and want[1] <= top:
            z = x.replace(**kw)
            rec.eq('replace', (*val(z), z.fold, z.tzinfo is x.tzinfo),
                   ((y, *want[:2]), tuple(want[2:]), short, fold, True),
                   f'{x!r} {kw}')
        else:
            rec.raises('replace', (ValueError, AssertionError), x.replace,
                       **kw)
        z = x.replace(tzinfo=tz(ob), fold=1 - fold)
        rec.eq('replace', (*val(z), z.fold, z.utcoffset()),
               (a, ta, short, 1 - fold, None if ob is None else
                dt.timedelta(seconds=ob)), f'{x!r}')
        z = x.replace(tzinfo=None)
        rec.eq('replace', (*val(z), z.tzinfo), (a, ta, short, None), f'{x!r}')
        for f in ('year', 'hour', 'tzinfo', 'fold', 'b_time', 'is_short'):
            rec.raises('immutable', AttributeError, setattr, x, f, 1)
    rec.raises('foreign', TypeError, D.datetime.combine, 1, tt)
    rec.raises('foreign', TypeError, D.datetime.combine, dd, dd)
    rec.raises('replace-form', ValueError, mkdt(a, ta).replace, vahid=1)
    rec.raises('replace-form', ValueError, mkdt(a, ta).replace, kull_i_shay=0)


def run_over(rec, a, ta, oa, k):
    a, ta = tuple(a), tuple(ta)
    x = mkdt(a, ta, True, tz(oa))
    n = total(a, ta)
    end, start = (M.MAXORD + 1) * DAY, M.MINORD * DAY
    for m, w in ((end - 1, split(end - 1)), (start, split(start))):
        z = x + dt.timedelta(microseconds=m - n)
        rec.eq('edge', val(z)[:2], w, f'{x!r} to the edge')
    for m in (end + k, start - 1 - k):
        rec.raises('overflow', OverflowError, operator.add, x,
                   dt.timedelta(microseconds=m - n))
        rec.raises('overflow', OverflowError, operator.sub, x,
                   dt.timedelta(microseconds=n - m))


def run_sort(rec, items, aware):
    items = [(tuple(d), tuple(t), o) for d, t, o in items]
    objs = [mkdt(d, t, i % 2, tz(o) if aware else None)
            for i, (d, t, o) in enumerate(items)]
    keys = [total(d, t) - (o * 10 ** 6 if aware else 0)
            for d, t, o in items]
    got = [keys[i] for i in sorted(range(len(objs)), key=objs.__getitem__)]
    rec.eq('sort', got, sorted(keys), 'sorted')
    rec.eq('sort', len(set(objs)), len(set(keys)), 'set')
    table = dict(zip(objs, keys))
    for (d, t, o), k in zip(items, keys):
        y = mkdt(d, t, True, tz(o) if aware else None)
        rec.eq('lookup', table.get(y), k, f'lookup {y!r}')
        if aware:
            n = k + 3600 * 10 ** 6
            if in_range(n):
                y = mkdt(*split(n), False, tz(3600))
                rec.eq('lookup', table.get(y), k, f'lookup {y!r}')
