"""Pickle, copy, and repr keep the value."""
import copy
import datetime as dt
import os
import pickle
import subprocess
import sys
import tempfile

import badidatetime

from ..api import D, M, day, gap, hms, mk, mkdt, usec, year

PROP = 'C12'
RULE = ('cases are (date, time, zone, fold); every pickle protocol, copy and '
        'deepcopy of the date, datetime, time, and zone objects of both '
        'forms is compared field by field with the original, and repr is '
        'evaluated; a fresh process reads a file of pickles; distinct: the '
        '(date, time, zone, fold)')
ASSUMPTIONS = ['fold is kept by protocols 4 and up, as documented in the '
               'standard library']
REQUIRED = {'pickle': 40000, 'copy': 10000, 'repr': 5000, 'foreign': 1500, 'text': 10000,
            'whole': 2000}


class SubDate(D.date):
    pass


class SubDatetime(D.datetime):
    pass


class SubTime(D.time):
    pass


def zones(rng):
    r = rng.random()
    if r < 0.25:
        return None
    if r < 0.32:
        return 'utc'
    if r < 0.39:
        return 'badi'
    if r < 0.75:
        return ['tz', rng.choice((rng.randint(-86399, 86399), 0, 60 *
                                  rng.randint(-1439, 1439), 3600 *
                                  rng.randint(-12, 14))),
                rng.choice((None, 'XYZ', 'Aṣl', ''))]
    return ['coords', round(rng.uniform(-60, 60), 4),
            round(rng.uniform(-180, 180), 4),
            rng.choice((None, 0, 3.5, -5, 5.75, rng.randint(-12, 14))),
            rng.choice((None, 'Somewhere', ''))]


def zone(z):
    if z is None:
        return None
    if z == 'utc':
        return D.timezone.utc
    if z == 'badi':
        return D.BADI
    if z[0] == 'tz':
        if z[2] is None:
            return D.timezone(dt.timedelta(seconds=z[1]))
        return D.timezone(dt.timedelta(seconds=z[1]), z[2])
    return D.TZWithCoords(*z[1:4], key=z[4])


def gen(rng, tier, part, parts):
    for i in range(60 if tier == 'quick' else 1500):
        y = year(rng)
        d = day(rng, y)
        if i % 5 == 0:
            d = (y, 0, rng.randint(1, M.ayyam(y)))
        yield ['value', d, [*hms(rng, 25 if i % 7 == 0 else 24), usec(rng)],
               zones(rng), rng.randrange(2)]


def run(rec, case):
    _, d, t, z, fold = case
    d, t = tuple(d), tuple(t)
    if t[0] == 24:
        t = (24, 0, t[2] % 3, 0)
    tz = zone(z)
    rec.state(d, t, z, fold)
    for short in (True, False):
        for cls in (D.date, SubDate):
            one(rec, mk(d, short, cls), fields_date)
        for cls in (D.datetime, SubDatetime):
            one(rec, cls(*mk(d, short).b_date, *([None, None] if short else
                                                 []), *t, tzinfo=tz,
                         fold=fold), fields_dt)
    for cls in (D.time, SubTime):
        one(rec, cls(*t, tzinfo=tz, fold=fold), fields_time)
    if tz is not None:
        one(rec, tz, fields_zone)
    one(rec, mk(d).timetuple(), fields_tuple)
    one(rec, mkdt(d, t, False, tz).timetuple(), fields_tuple)
    if d[0] not in (M.MIN, M.MAX) and not gap(d):
        x = mk(d).isocalendar()
        for p in range(pickle.HIGHEST_PROTOCOL + 1):
            rec.eq('pickle', pickle.loads(pickle.dumps(x, p)), tuple(x),
                   f'{x}')
    reprs(rec, d, t, z, tz, fold)
    # Whole numbers may be floats.
    w = [float(v) for v in t[:3]]
    one(rec, D.time(*w, t[3], tz, fold=fold), fields_time)
    x, y = (D.datetime(*d, None, None, *v, t[3], tz, fold=fold)
            for v in (w, t[:3]))
    one(rec, x, fields_dt)
    rec.eq('whole', (fields_dt(x), repr(x)), (fields_dt(y), repr(y)), f'{w}')
    x, y = (D.time(*v, t[3], tz, fold=fold) for v in (w, t[:3]))
    rec.eq('whole', (fields_time(x), repr(x)), (fields_time(y), repr(y)),
           f'{w}')
    if t[0] < 24:
        h = D.time(t[0], t[1], t[2] + 0.5)
        rec.eq('whole', repr(h), 'badidatetime.time(%d, %d, %s)'
               % (*t[:2], t[2] + 0.5), f'{h}')
        for u in (500000, max(1, t[3])):
            h = D.time(*t[:2], float(f'{t[2]}.{u:06}'), 0, tz, fold=fold)
            w = D.time(*t[:2], t[2], u, tz, fold=fold)
            for q in range(pickle.HIGHEST_PROTOCOL + 1):
                g = pickle.loads(pickle.dumps(h, q))
                rec.eq('whole', (g, hash(g), g.tzname(), g.microsecond,
                                 g.fold if q > 3 else 0),
                       (h, hash(w), w.tzname(), u, fold if q > 3 else 0),
                       f'{h!r}')
            for g in (copy.copy(h), copy.deepcopy(h)):
                rec.eq('whole', (g, g.fold), (w, fold), f'{h!r}')
    # A container keeps shared structure and works as a set member.
    a, b = mk(d), mkdt(d, t, True, tz)
    s = pickle.loads(pickle.dumps({a, b, a}))
    rec.eq('set', (len(s), a in s, b in s), (2, True, True), f'{a!r}')


def fields_zone(x):
    if x is None:
        return None
    return (type(x), x.utcoffset(None), x.tzname(None), str(x), x.dst(None),
            x.badioffset(None), getattr(x, 'coordinates', None),
            getattr(x, 'key', None), hash(x))


def fields_tuple(x):
    return type(x), tuple(x), x.short, repr(x)


def fields_date(x):
    return (type(x), x.b_date, x.is_short, x.year, x.month, x.day, hash(x),
            x.isoformat(), str(x), repr(x),
            None if x.is_short else (x.kull_i_shay, x.vahid))


def fields_time(x):
    return (type(x), x.hour, x.minute, x.second, x.microsecond, x.fold,
            fields_zone(x.tzinfo), x.isoformat(), hash(x))


def fields_dt(x):
    # The hash is no business of fold.
    return (*fields_date(x)[:9], x.b_time, x.hour, x.minute, x.second,
            x.microsecond, x.fold, fields_zone(x.tzinfo))


def one(rec, x, fields):
    want = fields(x)
    has_fold = getattr(x, 'fold', 0)
    for p in range(pickle.HIGHEST_PROTOCOL + 1):
        y = pickle.loads(pickle.dumps(x, p))
        w = want
        if has_fold and p < 4:
            w = fields(x.replace(fold=0))
        if not rec.eq('pickle', fields(y), w, f'{x!r} protocol {p}'):
            return
        rec.expect(y == x, 'equal', 'equal', lambda: f'{x!r} protocol {p}')
    # The state as text, as a pickle of Python 2 has it.
    if isinstance(x, (D.date, D.time)):
        cls, args = x.__reduce__()[:2]
        y = cls(args[0].decode('latin1'), *args[1:])
        rec.eq('text', fields(y), fields(x.replace(fold=0)) if has_fold
               else want, f'{x!r} as text')
        rec.raises('text', (ValueError, AssertionError, TypeError), cls,
                   args[0].decode('latin1')[:-1] + '\u0430', *args[1:])
    for y in (copy.copy(x), copy.deepcopy(x)):
        rec.eq('copy', fields(y), want, f'copy of {x!r}')
        rec.expect(y == x, 'equal', 'equal', lambda: f'copy of {x!r}')
    rec.eq('unchanged', fields(x), want, f'{x!r}')


def reprs(rec, d, t, z, tz, fold):
    env = {'badidatetime': badidatetime}
    for short in (True, False):
        x = mk(d, short)
        y = eval(repr(x), env)
        rec.eq('repr', fields_date(y), fields_date(x), repr(x))
        x = mkdt(d, t, short, None, fold)
        y = eval(repr(x), env)
        rec.eq('repr', fields_dt(y), fields_dt(x), repr(x))
        if tz is not None and not (isinstance(z, list) and z[0] == 'coords'):
            x = mkdt(d, t, short, tz, fold)
            y = eval(repr(x), env)
            rec.eq('repr', fields_dt(y), fields_dt(x), repr(x))
    x = D.time(*t, fold=fold)
    y = eval(repr(x), env)
    rec.eq('repr', fields_time(y), fields_time(x), repr(x))
    if tz is not None and not (isinstance(z, list) and z[0] == 'coords'):
        y = eval(repr(tz), env)
        rec.eq('repr', fields_zone(y), fields_zone(tz), repr(tz))


READER = '''
import json, pickle, sys
out = []
with open(sys.argv[1], 'rb') as fh:
    for x in pickle.load(fh):
        out.append([type(x).__name__, str(x), hash(x) == hash(x),
                    str(getattr(x, 'tzinfo', None)),
                    getattr(x, 'fold', None), x in {x}])
json.dump(out, sys.stdout)
'''


def final(rec, tier, seed):
    """A fresh process, with another hash seed, reads the pickles."""
    import json
    import random
    rng = random.Random(seed)
    objs = []
    for _ in range(600 if tier == 'quick' else 6000):
        d, z = day(rng), zone(zones(rng))
        t = (*hms(rng), usec(rng))
        short = rng.random() < 0.5
        objs += [mk(d, short), mkdt(d, t, short, z), D.time(*t, tzinfo=z)]
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, 'objs.pickle')
        with open(path, 'wb') as fh:
            pickle.dump(objs, fh)
        env = dict(os.environ, PYTHONHASHSEED='77', TZ='America/New_York')
        got = subprocess.run([sys.executable, '-c', READER, path], env=env,
                             cwd=tmp, capture_output=True, text=True)
    if got.returncode:
        rec.bad('foreign', f'a fresh process cannot read the pickles: '
                f'{got.stderr[-600:]}')
        return
    for x, g in zip(objs, json.loads(got.stdout), strict=True):
        rec.eq('foreign', g, [type(x).__name__, str(x), True,
                              str(getattr(x, 'tzinfo', None)),
                              getattr(x, 'fold', None), True], repr(x))
