"""Time objects: order, hash, offsets, replace."""
import copy
import datetime as dt
import operator
import pickle

from ..api import D, hms, usec

PROP = 'C17'
RULE = ('cases are (time, time, offsets, folds); the oracle compares integer '
        'microseconds less the offset; distinct: the pairs')
ASSUMPTIONS = ['times of 24:00 and later within the hour 24 are drawn too, '
               'the code accepts them',
               'fractions of an hour, minute, or second are those that a '
               'float and microseconds both hold exactly']
REQUIRED = {'order': 20000, 'hash': 2000, 'mixed': 2000, 'replace': 5000,
            'offset': 5000, 'transitive': 3000, 'sort': 500,
            'unlike': 2000, 'fields': 5000, 'fraction': 10000, 'format': 2000}
OPS = (operator.lt, operator.le, operator.eq, operator.ne, operator.gt,
       operator.ge)
DAY = 86400 * 10 ** 6


class Sub(D.time):
    pass


class NoOffset(dt.tzinfo):
    """A zone that knows no offset."""
    def utcoffset(self, d):
        return None

    def tzname(self, d):
        return None

    def dst(self, d):
        return None


def us(t):
    return ((t[0] * 60 + t[1]) * 60 + t[2]) * 10 ** 6 + t[3]


def draw(rng):
    t = [*hms(rng, late=0.03), usec(rng)]
    if rng.random() < 0.05:
        t[0] = 24
    return t


def off(rng):
    r = rng.random()
    if r < 0.3:
        return None
    if r < 0.4:
        return 0
    if r < 0.7:
        return 3600 * rng.randint(-12, 14) * 10 ** 6
    if r < 0.8:
        return 60 * rng.randint(-1439, 1439) * 10 ** 6
    if r < 0.9:
        return rng.randint(-86399, 86399) * 10 ** 6
    return rng.randint(-DAY + 1, DAY - 1)


def zone(o):
    return None if o is None else D.timezone(dt.timedelta(microseconds=o))


def gen(rng, tier, part, parts):
    for i in range(300 if tier == 'quick' else 12000):
        a, b = draw(rng), draw(rng)
        oa = off(rng)
        ob = oa if rng.random() < 0.3 else off(rng)
        r = rng.random()
        if r < 0.2:
            b = list(a)
            if rng.random() < 0.5:
                k = rng.randrange(4)
                b[k] = max(0, b[k] - 1)
        elif r < 0.5 and oa is not None and ob is not None:
            # The same moment in the other zone, if it is on that day.
            n = us(a) - oa + ob
            if 0 <= n < DAY:
                s, u = divmod(n, 10 ** 6)
                b = [s // 3600, s // 60 % 60, s % 60, u]
        yield ['pair', a, b, oa, ob, rng.randrange(16)]
        yield ['one', a, oa, b, rng.randrange(16)]
        yield ['parts', a[:3], b, rng.randrange(1, 64), rng.randrange(3), oa,
               ob if rng.random() < 0.5 else oa]
        if i % 8 == 0:
            many = rng.random() < 0.5
            yield ['sort', [[draw(rng), None if many else
                             rng.choice((0, off(rng) or 0))]
                            for _ in range(20)]]


def run(rec, case):
    globals()['run_' + case[0]](rec, *case[1:])


def run_pair(rec, a, b, oa, ob, bits):
    x = D.time(*a, zone(oa), fold=bits & 1)
    y = (Sub if bits & 4 else D.time)(*b, zone(ob), fold=bits >> 1 & 1)
    rec.state(a, b, oa, ob)
    if (oa is None) != (ob is None):
        for p, q in ((x, y), (y, x)):
            rec.expect(not p == q and p != q, 'mixed', 'mixed',
                       lambda: f'{p} {q}')
            for op in OPS[:2] + OPS[4:]:
                rec.raises('mixed', TypeError, op, p, q)
        return
    na, nb = us(a) - (oa or 0), us(b) - (ob or 0)
    for op in OPS:
        rec.eq('order', (op(x, y), op(y, x)), (op(na, nb), op(nb, na)),
               f'{op.__name__} {x} {y}')
    rec.eq('order', (x == x, x < x, x <= x, x != x),
           (True, False, True, False), f'{x}')
    if na == nb:
        rec.eq('hash', hash(x), hash(y), f'{x!s} and {y!s} are equal')
        rec.eq('hash', len({x, y}), 1, f'{x!s} and {y!s}')
    else:
        rec.eq('fields', len({x: 1, y: 2}), 2, f'{x!s} and {y!s}')
    # Transitive with the middle.
    z = D.time(*a, zone(ob)) if oa is not None else D.time(*b)
    if x <= y and y <= z:
        rec.expect(x <= z, 'transitive', 'transitive', f'{x} {y} {z}')
    elif x >= y and y >= z:
        rec.expect(x >= z, 'transitive', 'transitive', f'{x} {y} {z}')
    for w in (5, 'x', None, D.date(1, 1, 1), dt.time(*a[:3]) if a[0] < 24
              else 1.5):
        rec.expect(x != w and not x == w, 'unlike', 'unlike', f'{x} {w}')
        for op in (operator.lt, operator.le, operator.gt, operator.ge):
            rec.raises('unlike', TypeError, op, x, w)
            rec.raises('unlike', TypeError, op, w, x)


def run_parts(rec, a, b, f, k, oa, ob):
    """A fraction of the hour, minute, or second; it is the same moment."""
    g = [*a[:k], a[k] + f / 64]
    n = us([*a[:k + 1], 0, 0, 0][:3] + [0]) + (
        f * 10 ** 6 * (3600, 60, 1)[k] // 64)
    s, u = divmod(n, 10 ** 6)
    w = [s // 3600, s // 60 % 60, s % 60, u]
    x, y, z = D.time(*g, tzinfo=zone(oa)), D.time(*w, zone(oa)), (
        D.time(*b, zone(ob)))
    rec.state('parts', g, b, oa, ob)
    rec.eq('fraction', (x == y, x < y, x > y, x <= y, hash(x)),
           (True, False, False, True, hash(y)), f'{g} is {w}')
    q = pickle.loads(pickle.dumps(x))
    rec.eq('fraction', (q, hash(q)), (x, hash(x)), f'{g}')
    rec.eq('fraction', (f'{x:%H%M%S%f}', x.isoformat('microseconds')),
           (f'{y:%H%M%S%f}', y.isoformat('microseconds')), f'{g} is {w}')
    if k < 2:
        rec.eq('fraction', (x.hour, x.minute, x.second, x.microsecond),
               tuple(w), f'{g}')
        rec.eq('fraction', (str(x), repr(x)),
               (str(y), repr(y)), f'{g} is {w}')
        for low in ((1,), (0.5,), (0, 1)):
            if k + len(low) < 3:
                rec.raises('fraction', (ValueError, AssertionError), D.time,
                           *g, *low)
    rec.raises('fraction', (ValueError, AssertionError), D.time, *g,
               microsecond=1)
    if (oa is None) == (ob is None):
        for op in OPS:
            rec.eq('fraction', (op(x, z), op(z, x)), (op(y, z), op(z, y)),
                   f'{op.__name__} {g} {b}')


def run_one(rec, a, o, b, bits):
    """The fields, the offset, and replace."""
    fold = bits & 1
    cls = Sub if bits & 2 else D.time
    z = zone(o)
    x = cls(*a, z, fold=fold)
    h = hash(x)
    val = (x.hour, x.minute, x.second, x.microsecond, x.tzinfo, x.fold)
    rec.eq('fields', val, (*a, z, fold), f'{a}')
    kw = dict(zip(('hour', 'minute', 'second', 'microsecond'), a))
    y = cls(**kw, tzinfo=z, fold=fold)
    rec.expect(y == x and y.fold == x.fold, 'fields', 'fields',
               lambda: f'{y} {x}')
    rec.eq('fields', cls(*a[:2]).isoformat(), f'{a[0]:02}:{a[1]:02}:00', a)
    # The offset.
    rec.eq('offset', x.utcoffset(), None if o is None else
           dt.timedelta(microseconds=o), f'{x}')
    rec.eq('offset', x.badioffset(), None if o is None else
           dt.timedelta(microseconds=o) - dt.timedelta(hours=3.5), f'{x}')
    rec.eq('offset', (x.dst(), x.tzname()),
           (None, None) if o is None else (z.dst(None), z.tzname(None)),
           f'{x}')
    n = D.time(*a, NoOffset())
    rec.eq('offset', (n.utcoffset(), n.badioffset(), n.dst(), n.tzname(),
                      n.isoformat()), (None, None, None, None,
                                       D.time(*a).isoformat()), f'{a}')
    rec.eq('offset', (n == D.time(*a), hash(n)), (True, hash(D.time(*a))),
           f'{a}')
    s = f'{a[0]:02}:{a[1]:02}:{a[2]:02}' + (f'.{a[3]:06}' if a[3] else '')
    rec.eq('format', (str(D.time(*a)), f'{D.time(*a)}'), (s, s), f'{a}')
    rec.eq('format', (f'{x:%H-%M-%S-%f}', x.strftime('%H-%M-%S-%f')),
           (f'{a[0]:02}-{a[1]:02}-{a[2]:02}-{a[3]:06}',) * 2, f'{a}')
    # Replace.
    for i, f in enumerate(('hour', 'minute', 'second', 'microsecond')):
        for v in (b[i], 0):
            y = x.replace(**{f: v})
            w = list(a)
            w[i] = v
            rec.eq('replace', (y.hour, y.minute, y.second, y.microsecond,
                               y.tzinfo, y.fold, type(y)),
                   (*w, z, fold, cls), f'{x} replace {f}={v}')
    y = x.replace(tzinfo=None)
    rec.eq('replace', (y.hour, y.minute, y.second, y.microsecond, y.tzinfo,
                       y.fold), (*a, None, fold), f'{x}')
    y = x.replace(fold=1 - fold)
    rec.eq('replace', (y.fold, y == x, hash(y), y.tzinfo),
           (1 - fold, True, h, z), f'{x}')
    y = x.replace(*b, fold=fold)
    rec.eq('replace', (y.hour, y.minute, y.second, y.microsecond, y.tzinfo),
           (*b, z), f'{x}')
    y = copy.copy(x)
    rec.expect(y == x and y.fold == x.fold, 'fields', 'copy', f'{x}')
    rec.eq('fields', (x.hour, x.minute, x.second, x.microsecond, x.tzinfo,
                      x.fold), val, 'changed')
    for f in ('hour', 'minute', 'second', 'microsecond', 'tzinfo', 'fold'):
        rec.raises('fields', AttributeError, setattr, x if cls is D.time
                   else D.time(*a), f, 1)


def run_sort(rec, ts):
    xs = [D.time(*t, zone(o)) for t, o in ts]
    order = sorted(range(len(ts)), key=lambda i: us(ts[i][0])
                   - (ts[i][1] or 0))
    rec.eq('sort', [us(ts[xs.index(x)][0]) - (ts[xs.index(x)][1] or 0)
                    for x in sorted(xs)],
           [us(ts[i][0]) - (ts[i][1] or 0) for i in order], f'{ts}')
    rec.expect(min(xs) == xs[order[0]] and max(xs) == xs[order[-1]], 'sort',
               'sort', lambda: f'{ts}')
    rec.eq('sort', len(set(xs)), len({us(t) - (o or 0) for t, o in ts}),
           f'{ts}')
