"""Midday, AM and PM, and the clock of 12 hours."""
from .. import astro
from ..api import (BC, D, M, T, day, gap, hms, is_fudge, long_of, mkdt, usec)

PROP = 'C24'
RULE = ('cases are (date, time, form); the oracle is half the time between '
        'the sunsets in Greenwich by an independent solar model; distinct: '
        'the moments')
ASSUMPTIONS = ['midday is that of the Greenwich day, for all places',
               'AM and PM are judged to 2 seconds of the midday',
               'the days of the reform gap are not drawn']
REQUIRED = {'midday': 2500, 'am-pm': 10000, 'clock': 10000, 'forms': 3000,
            'order': 5000, 'read-back': 5000, 'near': 2500, 'leap': 60}
S = 86400.0
GMT = (51.477928, -0.001545)
NEAR_LEAP = [o for o in range(M.START[-1744], M.START[-262])
             if M.julian_shift(o) != M.julian_shift(o + 1)]


def gen(rng, tier, part, parts):
    for i in range(48 if tier == 'quick' else 1000):
        while True:
            d = day(rng)
            if not (gap(d) or is_fudge(d[0])):
                break
        yield ['moment', d, [*hms(rng), usec(rng)], rng.randrange(2),
               rng.randrange(4)]
    for o in NEAR_LEAP[part::parts]:
        for i in range(-2, 4):
            yield ['moment', M.from_ordinal(o + i), [*hms(rng), usec(rng)],
                   i & 1, 0]


def run(rec, case):
    globals()['run_' + case[0]](rec, *case[1:])


def length(o):
    """Of the day that begins in the evening of the civil day o, in days."""
    real = o + 1721425.0 + M.julian_shift(o)
    a, b = (astro.event(real + i, *GMT, 'set') for i in (0, 1))
    return b - a


def run_moment(rec, d, t, short, fmt):
    d, t = tuple(d), tuple(t)
    rec.state(d, t)
    o = M.ordinal(*d)
    if any(M.julian_shift(o + i) != M.julian_shift(o) for i in range(-3, 4)):
        rec.ok('leap')
    w = f'{d} {t}'
    mid = length(o) / 2
    got = BC.midday(d, _short=True)
    # The sunset used may be that of the evening before or after.
    lo, hi = (f(length(o + i) for i in (-1, 0, 1)) / 2 for f in (min, max))
    rec.expect(lo - 2 / S < got < hi + 2 / S, 'midday', 'midday',
               lambda: f'{w}: {got}, the Sun {mid}')
    rec.eq('forms', BC.midday(long_of(d), _short=False), got, w)
    h = BC.midday(d, hms=True, _short=True)
    rec.expect(abs(((h[0] * 60 + h[1]) * 60 + h[2]) / S - got) < 1e-7,
               'midday', 'midday-hms', f'{w}: {h}, {got}')
    rec.eq('forms', BC.midday(long_of(d), hms=True, _short=False), h, w)
    # AM and PM of the time, of times around noon, and of the ends.
    n = round(mid * S)
    x = (t[0] * 60 + t[1]) * 60 + t[2]
    pms = []
    k = (3, 20, 60, 3600)[x % 4]
    for s in sorted((x, 0, n - k, n + k, 86399)):
        f = s // 3600, s // 60 % 60, s % 60
        b = mkdt(d, f + (t[3],), short)
        p = b.strftime('%p')
        pm = p == 'PM'
        rec.expect(p in ('AM', 'PM'), 'am-pm', 'am-pm', f'{b}: {p!r}')
        if abs(s - n) > 2:
            rec.expect(pm == (s > n), 'near' if abs(s - n) < 99 else 'am-pm',
                       'am-pm', lambda: f'{b}: {p}, midday {got * 24} h')
        pms.append(pm)
        i = int(b.strftime('%I'))
        rec.expect(i == (f[0] + 11) % 12 + 1, 'clock', 'clock',
                   f'{b}: hour {i}')
        rec.eq('clock', (b.strftime('%l'), b.strftime('%M %S')),
               ('%2d' % i, '%02d %02d' % f[1:]), f'{b}')
        rec.eq('clock', b.strftime('%r'),
               '%02d:%02d:%02d %s' % (i, *f[1:], p), f'{b}')
        rec.eq('forms', mkdt(d, f + (t[3],), not short).strftime('%p'), p,
               f'{b}')
        # Read back, unless between noon and the midday of the Sun.
        form = ('%Y-%m-%d %I:%M:%S.%f %p', '%p %I %M %S %f %j %Y',
                '%I%M%S%f%p/%B/%d/%Y', '%Y %j, %I.%M.%S,%f%p')[fmt]
        text = b.strftime(form)
        r = D.datetime.strptime(text.lower() if s % 2 else text, form)
        want = mkdt(d, f + (t[3],))
        rec.ok('read-back')
        if r != want:
            key = ('noon-and-midday' if min(43200, n - 2) <= s
                   <= max(43200, n + 2) else 'read-back')
            rec.bad(key, f'{b}: {text} is read as {r}')
    rec.expect(pms == sorted(pms), 'order', 'order', f'{w}: {pms}')
    rec.eq('order', (pms[0], pms[-1]), (False, True), w)
    # A time without a date has the midday of some day.
    tm = D.time(*t)
    p = tm.strftime('%p')
    if abs(x - 43200) > 120:
        rec.eq('am-pm', p, 'PM' if x > 43200 else 'AM', f'{tm}')
    rec.eq('clock', int(tm.strftime('%I')), (t[0] + 11) % 12 + 1, f'{tm}')
    tt = b.timetuple()
    rec.eq('forms', T.strftime('%p', tt), b.strftime('%p'), f'{tt}')
