"""Date objects: arithmetic, order, hash, replace, immutability."""
import datetime as dt
import operator

from ..api import D, M, day, gap, is_fudge, long_of, mk, ymd

PROP = 'C08'
RULE = ('cases are (date, date, days); dates from all years with month ends, '
        'Ayyam-i-Ha and year ends over-weighted, both forms; the oracle is '
        'integer arithmetic on the reference calendar; distinct: the '
        '(date, date, days) triples')
ASSUMPTIONS = ['the years -1796, -1792 and -1788 (C03) and the days of the '
               'reform gap are not drawn']
REQUIRED = {'add': 3000, 'sub': 4000, 'order': 20000, 'hash': 3000,
            'replace': 4000, 'overflow': 300, 'immutable': 300, 'sort': 500}
OPS = (operator.lt, operator.le, operator.eq, operator.ne, operator.gt,
       operator.ge)


class Sub(D.date):
    pass


def draw(rng, y=None):
    while True:
        d = day(rng, y)
        if not (gap(d) or is_fudge(d[0])):
            return d


def gen(rng, tier, part, parts):
    for i in range(110 if tier == 'quick' else 1400):
        a = draw(rng)
        r = rng.random()
        if r < 0.4:
            b = draw(rng, a[0])
        elif r < 0.6:
            b = M.from_ordinal(min(max(M.ordinal(*a) + rng.randint(-8, 8),
                                       M.MINORD), M.MAXORD))
            if gap(b) or is_fudge(b[0]):
                b = a
        else:
            b = draw(rng)
        n = rng.choice((rng.randint(-40, 40), rng.randint(-800, 800),
                        rng.randint(-400000, 400000),
                        M.ordinal(*b) - M.ordinal(*a)))
        yield ['pair', a, b, n, rng.randrange(4), round(rng.random(), 3)]
        if i % 4 == 0:
            yield ['replace', a, draw(rng), rng.randrange(64)]
        if i % 16 == 0:
            y = draw(rng)[0]
            yield ['sort', [draw(rng, y) if rng.random() < 0.6 else
                            draw(rng) for _ in range(30)],
                   rng.randrange(1 << 30)]
            yield ['over', a, rng.choice((0, 1, 2, 50, 10 ** 6))]
            yield ['immutable', a]


def run(rec, case):
    globals()['run_' + case[0]](rec, *case[1:])


def run_pair(rec, a, b, n, forms, frac):
    a, b = tuple(a), tuple(b)
    rec.state(a, b, n)
    x, y = mk(a, forms & 1), mk(b, forms & 2)
    oa, ob = M.ordinal(*a), M.ordinal(*b)
    # Difference.
    rec.eq('sub', x - y, dt.timedelta(oa - ob), f'{a} - {b}')
    rec.eq('sub', y - x, dt.timedelta(ob - oa), f'{b} - {a}')
    # Sum.
    s = oa + n
    if M.MINORD <= s <= M.MAXORD:
        want = M.from_ordinal(s)
        if not (gap(want) or is_fudge(want[0])):
            # The time part of a difference is dropped.
            t = dt.timedelta(n, frac * 86399)
            for z, what in ((x + t, '+'), (t + x, 'r+'),
                            (x - dt.timedelta(-n), '-'),
                            (x - dt.timedelta(-n, frac * 86399), '-'),
                            (x - dt.timedelta(-n, 0, 1), '-')):
                rec.eq('add', (ymd(z), z.is_short), (want, x.is_short),
                       f'{a} {what} {n} days')
                rec.expect(type(z) is D.date, 'type', 'type',
                           lambda: f'{type(z)}')
            z = Sub(*a) + dt.timedelta(n)
            rec.eq('add-subclass', (ymd(z), type(z)), (want, Sub),
                   f'subclass {a} + {n}')
            rec.eq('inverse', ymd((x + dt.timedelta(n)) - dt.timedelta(n)),
                   a, f'{a} + {n} - {n}')
    rec.eq('unchanged', (ymd(x), ymd(y)), (a, b), 'operands')
    # Order.
    for op in OPS:
        rec.eq('order', op(x, y), op(oa, ob), f'{op.__name__} {x!r} {y!r}')
        rec.eq('order', op(y, x), op(ob, oa), f'{op.__name__} {y!r} {x!r}')
    rec.expect(hash(x) == hash(mk(a, not forms & 1)), 'hash', 'hash',
               lambda: f'hash of the two forms of {a}')
    if oa == ob:
        rec.eq('hash', hash(x), hash(y), f'hash {a}')
    else:
        rec.eq('set', len({x, y}), 2, f'{{{x!r}, {y!r}}}')
    rec.eq('foreign', (x == a, x != a, x == 5, x is None), (False, True,
                                                            False, False),
           f'{x!r} == {a}')
    for op in (operator.lt, operator.le, operator.gt, operator.ge):
        rec.raises('foreign', TypeError, op, x, oa)
    rec.raises('foreign', TypeError, operator.add, x, y)
    rec.raises('foreign', TypeError, operator.add, x, 1)
    rec.raises('foreign', TypeError, operator.sub, x, 1)


def run_sort(rec, dates, salt):
    dates = [tuple(d) for d in dates]
    objs = [mk(d, (salt >> i) & 1) for i, d in enumerate(dates)]
    got = [ymd(x) for x in sorted(objs)]
    want = sorted(dates, key=lambda d: M.ordinal(*d))
    rec.eq('sort', got, want, 'sorted')
    rec.eq('sort', (ymd(min(objs)), ymd(max(objs))), (want[0], want[-1]),
           'min and max')
    rec.eq('sort', len(set(objs)), len(set(dates)), 'set')
    table = {x: M.ordinal(*d) for x, d in zip(objs, dates)}
    for d in dates:
        rec.eq('lookup', table.get(mk(d, not salt & 1)), M.ordinal(*d),
               f'lookup of {d}')


def run_over(rec, a, k):
    o = M.ordinal(*a)
    x = mk(tuple(a))
    rec.raises('overflow', OverflowError, operator.add, x,
               dt.timedelta(M.MAXORD - o + 1 + k))
    rec.raises('overflow', OverflowError, operator.sub, x,
               dt.timedelta(o - M.MINORD + 1 + k))
    rec.eq('edge', ymd(x + dt.timedelta(M.MAXORD - o)), (M.MAX, 19, 19),
           f'{a} to the end')
    rec.eq('edge', ymd(x - dt.timedelta(o - M.MINORD)), (M.MIN, 1, 1),
           f'{a} to the start')


def run_immutable(rec, a):
    x = mk(tuple(a))
    z = mk(tuple(a), False)
    for obj in (x, z):
        for f in ('year', 'month', 'day', 'is_short', 'b_date'):
            rec.raises('immutable', AttributeError, setattr, obj, f, 1)
        h = hash(obj)
        obj + dt.timedelta(1) if M.ordinal(*a) < M.MAXORD else None
        obj.timetuple(), obj.isoformat(), obj.toordinal(), str(obj)
        rec.eq('immutable', (hash(obj), ymd(obj)), (h, tuple(a)), f'{a}')


def run_replace(rec, a, b, which):
    """The named fields change, the others stay."""
    a, b = tuple(a), tuple(b)
    kw, want = {}, list(a)
    for i, f in enumerate(('year', 'month', 'day')):
        if which >> i & 1:
            kw[f] = b[i]
            want[i] = b[i]
    want = tuple(want)
    x = mk(a)
    if 1 <= want[2] <= (M.ayyam(want[0]) if want[1] == 0 else 19):
        z = x.replace(**kw)
        rec.eq('replace', (ymd(z), z.is_short), (want, True), f'{a} {kw}')
        rec.eq('replace', ymd(x), a, 'original')
    else:
        rec.raises('replace', (ValueError, AssertionError), x.replace, **kw)
    la, lb = long_of(a), long_of(b)
    kw, want = {}, list(la)
    for i, f in enumerate(('kull_i_shay', 'vahid', 'year', 'month', 'day')):
        if which >> i & 1:
            kw[f] = lb[i]
            want[i] = lb[i]
    y = M.short(*want[:3])
    x = mk(a, False)
    if M.MIN <= y <= M.MAX:
        if 1 <= want[4] <= (M.ayyam(y) if want[3] == 0 else 19):
            z = x.replace(**kw)
            rec.eq('replace', z.b_date, tuple(want), f'{la} {kw}')
            rec.eq('replace', z.is_short, False, f'{la} {kw}')
        else:
            rec.raises('replace', (ValueError, AssertionError), x.replace,
                       **kw)
    rec.raises('replace-form', ValueError, mk(a).replace, kull_i_shay=la[0])
    rec.raises('replace-form', ValueError, mk(a).replace, kull_i_shay=0)
    rec.raises('replace-form', ValueError, mk(a).replace, vahid=lb[1])
    rec.raises('replace-form', ValueError, x.replace, year=0)
    rec.raises('replace-form', ValueError, x.replace, year=20)
