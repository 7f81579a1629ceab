"""ISO 8601 strings."""
import datetime as dt
import itertools
import random
import re

from ..api import (D, M, day, gap, hms, is_fudge, long_of, mk, mkdt,
                   moment, turn, usec, ymd)

PROP = 'C10'
RULE = ('cases are (date, time, offset, separator, precision); what isoformat '
        'writes is compared with a formatter of the reference calendar and '
        'is read back; every ISO layout of a date is read; damaged strings '
        '(some of the digits and signs of a valid one deleted, inserted, or '
        'changed) are judged by a grammar of the layouts: refused, or read '
        'as what they name; distinct: the strings')
ASSUMPTIONS = ['compact and week layouts of years between -999 and -1 have '
               'no defined width and are not drawn']
REQUIRED = {'date': 4000, 'datetime': 4000, 'layouts': 10000,
            'refused': 3000, 'offset': 1500, 'time': 2000,
            'odd-offset': 2500, 'turn': 2000, 'parts': 9000, 'damaged-date': 20000,
            'damaged-time': 20000, 'damaged-datetime': 20000,
            'damaged-still-valid': 2000}
EXC = (ValueError, AssertionError)


def gen(rng, tier, part, parts):
    for i in range(120 if tier == 'quick' else 2500):
        d = day(rng)
        while gap(d) or is_fudge(d[0]):
            d = day(rng)
        r = rng.random()
        if r < 0.35:
            off = None
        elif r < 0.5:
            off = 0
        else:
            off = rng.choice((rng.randint(-1439, 1439), 60 *
                              rng.randint(-12, 14), 210, -210, 345, -30, 30,
                              -1, 1, -59))
        yield ['iso', d, [*hms(rng, late=0.03), usec(rng)], off, rng.choice('T '),
               rng.choice(('auto', 'hours', 'minutes', 'seconds',
                           'milliseconds', 'microseconds'))]
        yield ['layout', d]
        if i % 2:
            yield ['turn', d, [*hms(rng), usec(rng)], rng.randrange(1 << 30)]
        if i % 4 == 0:
            yield ['odd', d, [*hms(rng), usec(rng)], rng.choice(
                (1, -1)) * rng.choice((
                    rng.randint(1, 999999), rng.randint(0, 86399) * 10**6
                    + rng.randint(0, 999999), rng.randint(1, 86399) * 10**6,
                    rng.randint(1, 59) * 10**6, 86400 * 10**6 - 1,
                    rng.randint(1, 1439) * 60 * 10**6
                    + rng.randint(1, 999999), 1))]
        yield ['mutate', d, [*hms(rng, late=0.03), usec(rng)], off,
               rng.randrange(2 ** 40)]
        if i % 2 == 0:
            yield ['damage', d, [*hms(rng), usec(rng)], rng.randrange(1000)]


def run(rec, case):
    globals()['run_' + case[0]](rec, *case[1:])


def iso_date(d):
    return f'{d[0]:04d}-{d[1]:02d}-{d[2]:02d}'


def iso_time(t, spec='auto'):
    h, m, s, us = t
    full = f'{h:02d}:{m:02d}:{s:02d}'
    return {'hours': full[:2], 'minutes': full[:5], 'seconds': full,
            'milliseconds': f'{full}.{us // 1000:03d}',
            'microseconds': f'{full}.{us:06d}',
            'auto': f'{full}.{us:06d}' if us else full}[spec]


def cut(t, spec, us=True):
    h, m, s, u = t
    return {'hours': (h, 0, 0, 0), 'minutes': (h, m, 0, 0),
            'seconds': (h, m, s, 0), 'milliseconds':
            (h, m, s, u // 1000 * 1000)}.get(spec, (h, m, s, u))


def run_iso(rec, d, t, off, sep, spec):
    d, t = tuple(d), tuple(t)
    tz = None if off is None else D.timezone(dt.timedelta(minutes=off))
    o = '' if off is None else (f'{"-" if off < 0 else "+"}'
                                f'{abs(off) // 60:02d}:{abs(off) % 60:02d}')
    ds = iso_date(d)
    for short in (True, False):
        x = mk(d, short)
        rec.eq('date', x.isoformat(), ds, f'{x!r}')
        y = D.date.fromisoformat(ds, short=short)
        rec.eq('date', (ymd(y), y.is_short, type(y)), (d, short, D.date), ds)
        z = mkdt(d, t, short, tz)
        want = f'{ds}{sep}{iso_time(t, spec)}{o}'
        rec.eq('datetime', z.isoformat(sep, spec), want, f'{z!r}')
    rec.state(want)
    rec.eq('str', str(mk(d)), ds, f'str of {d}')
    rec.eq('str', str(mkdt(d, t, True, tz)), f'{ds}T{iso_time(t)}{o}',
           f'str of {d} {t}')
    lg = long_of(d)
    k = f'{lg[0]:0{3 if lg[0] < 0 else 2}d}'
    ls = k + ''.join(f'-{v:02d}' for v in lg[1:])
    rec.eq('str', str(mk(d, False)), ls, f'str of {lg}')
    rec.eq('str', str(mkdt(d, t, False, tz)), f'{ls}T{iso_time(t)}{o}',
           f'str of {lg} {t}')
    got = D.datetime.fromisoformat(want)
    rec.eq('datetime', (ymd(got), got.b_time), (d, cut(t, spec)), want)
    rec.eq('datetime', type(got), D.datetime, want)
    if off is None:
        rec.eq('offset', got.tzinfo, None, want)
    else:
        rec.eq('offset', got.utcoffset(), dt.timedelta(minutes=off), want)
        for s, w in (('Z', dt.timedelta(0)), ('B', dt.timedelta(hours=3.5))):
            g = D.datetime.fromisoformat(f'{ds}{sep}{iso_time(t)}{s}')
            rec.eq('offset', (g.utcoffset(), g.b_time), (w, t), s)
    # The time alone.
    a = D.time(*t, tzinfo=tz)
    rec.eq('time', a.isoformat(spec), iso_time(t, spec) + o, f'{t}')
    c = cut(t, spec)
    for p in 'T ':
        s = p + iso_time(t, spec)
        b = D.time.fromisoformat(s)
        b4 = (b.hour, b.minute, b.second, b.microsecond)
        if c[3] and (b4[:2], b4[3]) == (c[:2], 0) and abs(
                    b4[2] - c[2] - c[3] / 1e6) < 1e-7:
            rec.bad('time-fraction', f'{s} is read as {b4}')
            rec.ok('time')
        else:
            rec.eq('time', b4, c, s)
        # However it is kept, it is the same time.
        w = D.time(*c)
        rec.eq('time', (b, hash(b), f'{b:%T.%f}'), (w, hash(w),
                                                    f'{w:%T.%f}'), s)
        for x in ('hours', 'minutes', 'seconds', 'milliseconds',
                  'microseconds'):
            rec.eq('time', b.isoformat(x), iso_time(c, x), f'{s} {x}')
        rec.eq('time', D.time.fromisoformat(p + str(b)), w, f'{b}')
    if off is not None:
        h, m = divmod(abs(off), 60)
        sign = o[0]
        for z in (o, f'{sign}{h:02d}{m:02d}') + (
                (f'{sign}{h:02d}',) if not m else ()):
            g = D.datetime.fromisoformat(f'{ds}{sep}{iso_time(t)}{z}')
            rec.eq('offset', (g.utcoffset(), g.b_time),
                   (dt.timedelta(minutes=off), t), f'{want}: {z}')
            s = f'{sep}{iso_time(t[:3] + (0,))}{z}'
            b = D.time.fromisoformat(s)
            rec.eq('offset', (b.utcoffset(), b.hour, b.minute, b.second),
                   (dt.timedelta(minutes=off), *t[:3]), s)
    # A date and an offset without a time, and fractions of the last unit.
    for s in (ds, ds.replace('-', '')) if 0 <= d[0] else (ds,):
        for z, w in ((o, got.utcoffset()), ('Z', dt.timedelta(0)),
                     ('B', dt.timedelta(hours=3.5))):
            g = D.datetime.fromisoformat(s + z)
            rec.eq('offset', (ymd(g), g.b_time, g.utcoffset()),
                   (d, (0, 0, 0, 0), w), s + z)
    f = f'{t[3]:06d}'
    for s, n in ((f'{t[0]:02d}.{f}', t[0] * 3600 + t[3] * 3600 / 1e6),
                 (f'{t[0]:02d}:{t[1]:02d}.{f}', t[0] * 3600 + t[1] * 60
                  + t[3] * 60 / 1e6),
                 (f'{t[0]:02d}{t[1]:02d}.{f}', t[0] * 3600 + t[1] * 60
                  + t[3] * 60 / 1e6),
                 (f'{t[0]:02d}{t[1]:02d}{t[2]:02d}.{f}', t[0] * 3600
                  + t[1] * 60 + t[2] + t[3] / 1e6)):
        if t[0] == 24:
            break
        for p in 'T ':
            b = D.time.fromisoformat(p + s)
            g = D.datetime.fromisoformat(f'{ds}{p}{s}')
            for h, m, c, us in (g.b_time, (b.hour, b.minute, b.second,
                                           b.microsecond)):
                rec.expect(abs(h * 3600 + m * 60 + c + us / 1e6 - n) < 3e-6
                           and h < 24 and m < 60 and c < 60, 'parts',
                           'parts', f'{p}{s} is read as {b} {g}')
            rec.eq('parts', (ymd(g), [type(v) for v in g.b_time]),
                   (d, [int] * 4), s)
    compact = iso_time(t).replace(':', '')
    if not t[3]:
        b = D.time.fromisoformat('T' + compact)
        rec.eq('time', (b.hour, b.minute, b.second), t[:3], compact)
        g = D.datetime.fromisoformat(f'{ds}T{compact}')
        rec.eq('datetime', (ymd(g), g.b_time), (d, t), compact)
    if rec.events['no-T'] < 3:
        rec.ok('no-T')
        try:
            D.time.fromisoformat(iso_time(t))
        except ValueError:
            rec.bad('time-needs-T', f'{iso_time(t)} is refused')


def run_turn(rec, d, t, seed):
    """The offset of either fold is written and read."""
    d, t = tuple(d), tuple(t)
    z = turn(random.Random(seed), moment(d, t), 60)
    for fold in (0, 1):
        x = mkdt(d, t, True, z, fold)
        rec.ok('turn-double', z.double(x))
        o = z.seconds(x) // 60
        s = (f'{iso_date(d)}T{iso_time(t)}{"-" if o < 0 else "+"}'
             f'{abs(o) // 60:02d}:{abs(o) % 60:02d}')
        rec.eq('turn', (x.isoformat(), str(x)), (s, s), f'fold {fold}')
        y = mkdt(d, t, False, z, fold)
        rec.eq('turn', y.isoformat()[-6:], s[-6:], f'fold {fold}')
        y = D.datetime.fromisoformat(s)
        rec.eq('turn', (ymd(y), y.b_time, y.utcoffset()),
               (d, t, z.utcoffset(x)), s)
    rec.eq('turn', D.time(*t, tzinfo=z).isoformat(), iso_time(t),
           'the offset needs a date')


def run_odd(rec, d, t, us):
    """Offsets with seconds and microseconds."""
    d, t = tuple(d), tuple(t)
    delta = dt.timedelta(microseconds=us)
    tz = D.timezone(delta)
    s, u = divmod(abs(us), 10**6)
    o = (f'{"-" if us < 0 else "+"}{s // 3600:02d}:{s // 60 % 60:02d}'
         + (f':{s % 60:02d}' if s % 60 or u else '')
         + (f'.{u:06d}' if u else ''))
    want = f'{iso_date(d)}T{iso_time(t)}{o}'
    rec.state(o)
    for short in (True, False):
        rec.eq('odd-offset', mkdt(d, t, short, tz).isoformat(), want,
               f'{d} {t} {delta!r}')
    rec.eq('odd-offset', str(mkdt(d, t, True, tz)), want, f'str, {d} {t}')
    rec.eq('odd-offset', D.time(*t, tzinfo=tz).isoformat(),
           iso_time(t) + o, f'{t} {delta!r}')
    try:
        got = D.datetime.fromisoformat(want)
    except EXC:
        if s % 60 or u:
            rec.bad('offset-seconds', f'{want} is refused')
        else:
            rec.bad('odd-offset', f'{want} is refused')
    else:
        rec.eq('odd-offset', (ymd(got), got.b_time, got.utcoffset()),
               (d, t, delta), want)


def run_layout(rec, d):
    d = tuple(d)
    y, m, dd = d
    ds = iso_date(d)
    yy = ds[:-6]
    n = M.yday(*d)
    lay = {f'{yy}-{m:02d}-{dd:02d}': d}
    if not -999 <= y < 0:
        lay |= {f'{yy}{m:02d}{dd:02d}': d, f'{yy}-{m:02d}': (y, m, 1),
                f'{yy}-{n:03d}': d, f'{yy}{n:03d}': d}
    o = M.ordinal(*d)
    near = any(is_fudge(y + i) for i in (-1, 0, 1))
    if M.MIN + 1 < y < M.MAX - 1 and not near:
        iy, w, wd = M.isocal(o)
        if not -999 <= iy < 0 and w < 52:
            s = f'{iy:04d}'
            monday = M.from_ordinal(o - wd + 1)
            lay |= {f'{s}-W{w:02d}-{wd}': d, f'{s}W{w:02d}{wd}': d}
            if not gap(monday):
                lay |= {f'{s}-W{w:02d}': monday}
    for s, want in lay.items():
        rec.eq('layouts', ymd(D.date.fromisoformat(s)), want, s)
        g = D.datetime.fromisoformat(s)
        rec.eq('layouts', (ymd(g), g.b_time), (want, (0, 0, 0, 0)), s)
        g = D.datetime.fromisoformat(s + 'T12:30:45')
        rec.eq('layouts', (ymd(g), g.b_time), (want, (12, 30, 45, 0)), s)


def run_damage(rec, d, t, salt):
    """No date at all."""
    d, t = tuple(d), tuple(t)
    y, m, dd = d
    ds, ts = iso_date(d), iso_time(t)
    bad = [ds[:-5] + f'{20 + salt % 80:02d}' + ds[-3:],      # month
           ds[:-2] + f'{20 + salt % 80:02d}',                # day
           ds[:-2] + '00', ds + 'x', 'x' + ds, ds.replace('-', '/'),
           f'{M.MAX + 2 + salt:04d}' + ds[-6:],
           f'{M.MIN - 2 - salt:04d}' + ds[-6:], '',
           f'{yy(y)}-00-{M.ayyam(y) + 1:02d}', ds + '-01']
    for s in bad:
        rec.raises('refused', EXC, D.date.fromisoformat, s)
    rec.raises('refused', EXC, D.date.fromisoformat, f'{ds}T{ts}')
    for s in bad[:8]:
        if s:
            rec.raises('refused', (*EXC, TypeError),
                       D.datetime.fromisoformat, f'{s}T{ts}')
    hh = f'{25 + salt % 75:02d}'
    mm = f'{60 + salt % 40:02d}'
    for s in (f'{hh}:00:00', f'00:{mm}:00', f'00:00:{mm}.5', '12:30:30:30',
              '12:3x:00', '12.5.5', f'{salt % 3}',
              f'{hh[0]}', f'12:{salt % 10}', f'12:30:{salt % 10}',
              f'1:30:{10 + salt % 50}', f'12:30.{salt}:30'):
        if s == '00:00:60.5':
            continue
        rec.raises('refused', EXC, D.datetime.fromisoformat, f'{ds}T{s}')
        rec.raises('refused', EXC, D.time.fromisoformat, f'T{s}')
    for z in ('+24:00', '-24:00', '+3x', '+99:00', '++03:00', '+03:00Z',
              f'+{salt % 24:02d}:{60 + salt % 40}', '+03:-5', '+0360'):
        rec.raises('refused', EXC, D.datetime.fromisoformat, f'{ds}T{ts}{z}')
    rec.raises('refused', TypeError, D.date.fromisoformat, 5)
    rec.raises('refused', TypeError, D.time.fromisoformat, None)


def yy(y):
    return f'{y:04d}'


DATE = re.compile(r'(-?\d{4}|-\d{3}(?=-))(?:-(\d\d)(?:-(\d\d))?|(\d\d)(\d\d)|'
                  r'-?(\d{3})|(-?)W(\d\d)(?:(-?)(\d))?)', re.A)
TIME = re.compile(r'[T ](\d\d)(?:(\d\d)(\d\d)?|:(\d\d)(?::(\d\d))?)?(\.\d+)?',
                  re.A)
ZONE = re.compile(r'[ZB]|([+-])(\d\d)(?::?(\d\d))?', re.A)
NO, MAYBE = 'no', 'maybe'


def read_date(s):
    """The date that a string names, NO, or MAYBE if it is not judged."""
    m = DATE.fullmatch(s)
    if not m:
        return NO
    ys, mm, dd, m2, d2, n, sep, w, sep2, wd = m.groups()
    y = int(ys)
    if not M.MIN <= y <= M.MAX:
        return NO
    if y == 0 and ys[0] == '-':
        return MAYBE
    if n:
        n = int(n)
        return M.from_yday(y, n) if 1 <= n <= 365 + M.leap(y) else NO
    if w:
        w = int(w)
        if wd is None and not sep or wd is not None and sep != sep2:
            return NO
        if not M.MIN + 1 < y < M.MAX - 1 or any(
                is_fudge(y + i) for i in (-1, 0, 1)):
            return MAYBE
        wd = int(wd or 1)
        if not (1 <= wd <= 7 and 1 <= w <= M.weeks(y)):
            return NO
        if w > 51:
            return MAYBE            # judged by C09
        o = M.from_ordinal(M.week1(y) + 7 * (w - 1) + wd - 1)
        return MAYBE if gap(o) else o
    m, d = int(mm or m2), int(dd or d2 or 1)
    if m > 19 or not 1 <= d <= (19 if m else M.ayyam(y)):
        return NO
    return y, m, d


def read_time(s):
    """The seconds since midnight that a string names."""
    m = TIME.fullmatch(s)
    if not m:
        return MAYBE if s in ('', 'T', ' ') else NO
    h, a, b, c, e, f = m.groups()
    mi, se = a or c, b or e
    v = [int(h), int(mi or 0), int(se or 0)]
    if v[0] > 24 or v[1] > 59 or v[2] > 60:
        return NO
    if v[2] == 60:
        return MAYBE
    unit = 1 if se else 60 if mi else 3600
    return v[0] * 3600 + v[1] * 60 + v[2] + float(f or 0) * unit


def read_zone(s):
    """The offset in minutes that a string names."""
    if s == '':
        return None
    m = ZONE.fullmatch(s)
    if not m:
        return NO
    if s in 'ZB':
        return 0 if s == 'Z' else 210
    sign, h, mi = m.groups()
    h, mi = int(h), int(mi or 0)
    if h > 23 or mi > 59:
        return NO
    return (h * 60 + mi) * (-1 if sign == '-' else 1)


def read_datetime(s):
    """The readings of a string as date, time, and zone."""
    found = []
    for i in range(len(s) + 1):
        d = read_date(s[:i])
        if d == NO:
            continue
        for j in range(i, len(s) + 1):
            t, z = read_time(s[i:j]), read_zone(s[j:])
            if NO not in (t, z):
                if t == MAYBE and s[i:j] not in ('', 'T', ' '):
                    d = MAYBE           # the second 60
                found.append((d, 0 if t == MAYBE else t, z,
                              t == MAYBE and s[j:j + 1] == '-'
                              or MAYBE in (d, t) and s[i:j] != ''))
    return found


def damage(rng, s):
    s = list(s)
    for _ in range(rng.choice((1, 1, 1, 2, 3))):
        r, i = rng.random(), rng.randrange(len(s) + 1)
        c = rng.choice('0123456789' * 2 + '-:.TWZB+ ')
        if r < 0.35:
            del s[i:i + 1]
        elif r < 0.7:
            s.insert(i, c)
        else:
            s[i:i + 1] = c
    return ''.join(s)


def clock(x):
    return x.hour * 3600 + x.minute * 60 + x.second + x.microsecond / 1e6


def zone_of(x):
    o = x.utcoffset()
    return None if o is None else o.total_seconds() / 60


def attempt(fn, s):
    try:
        return fn(s)
    except EXC:
        return NO


def run_mutate(rec, d, t, off, seed):
    """Strings with damages, against the grammar."""
    rng = random.Random(seed)
    d, t = tuple(d), tuple(t)
    ds, n = iso_date(d), M.yday(*d)
    dates, y4 = [ds], f'{"-" if d[0] < 0 else ""}{abs(d[0]):04d}'
    dates += [y4 + x for x in (
        f'-{d[1]:02d}-{d[2]:02d}', f'{d[1]:02d}{d[2]:02d}', f'-{d[1]:02d}',
        f'-{n:03d}', f'{n:03d}', f'-W{n % 52 + 1:02d}-{n % 7 + 1}',
        f'W{n % 52 + 1:02d}{n % 7 + 1}', f'-W{n % 52 + 1:02d}')]
    full = iso_time(t)
    times = [full, full[:8], full[:5], full[:2], full.replace(':', ''),
             full[:5].replace(':', ''), full[:5] + '.5', full[:2] + '.25']
    o = '' if off is None else f'{"-" if off < 0 else "+"}{abs(off) // 60:02d}'
    zones = ['', 'Z', 'B'] + ([o, o + f':{abs(off) % 60:02d}',
                               o + f'{abs(off) % 60:02d}'] if o else [])
    for k, (a, b) in enumerate(itertools.product(dates, 'T ')):
        s = damage(rng, a)
        want, got = read_date(s), attempt(D.date.fromisoformat, s)
        rec.ok('damaged-date')
        if want != MAYBE:
            rec.eq('damaged-date', got if got == NO else ymd(got), want, s)
            rec.ok('damaged-still-valid', want != NO)
        s = damage(rng, b + rng.choice(times) + rng.choice(zones))
        i = min([i for i, c in enumerate(s) if c in 'ZB+-'], default=len(s))
        want = read_time(s[:i]), read_zone(s[i:])
        got = attempt(D.time.fromisoformat, s)
        if NO in want:
            rec.eq('damaged-time', got, NO, s)
        elif want[0] != MAYBE:
            rec.expect(got != NO and abs(clock(got) - want[0]) < 1e-4
                       and zone_of(got) == want[1], 'damaged-time',
                       'damaged-time', lambda: f'{s} is read as {got}')
            rec.ok('damaged-still-valid')
        s = damage(rng, a + b + rng.choice(times) + rng.choice(zones)
                   if rng.random() < 0.8 else a + rng.choice(zones))
        want, got = read_datetime(s), attempt(D.datetime.fromisoformat, s)
        rec.state(s)
        if not want:
            rec.eq('damaged-datetime', got, NO, s)
        elif len(want) == 1 and want[0][0] != MAYBE:
            w = want[0]
            rec.expect(got == NO and w[3] or got != NO and ymd(got) == w[0]
                       and abs(clock(got) - w[1]) < 1e-4
                       and zone_of(got) == w[2], 'damaged-datetime',
                       'damaged-datetime', lambda: f'{s} is read as {got}')
            rec.ok('damaged-still-valid', got != NO)
