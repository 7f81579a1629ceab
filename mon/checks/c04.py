"""Badi dates and Julian days: a bijection at every place."""
from ..api import BC, M, TEHRAN, day, gap, hms, place, usec, \
    CENTURIES

PROP = 'C04'
RULE = ('cases are (date, time, place) and (Julian day, place), dates from '
        'all years with edges over-weighted, 16 named places and random ones '
        'up to 60 degrees; the oracle is the pair of sunsets around the '
        'moment, which the code itself reports (C21 compares those with an '
        'independent model); distinct: the (date, time, place) triples')
ASSUMPTIONS = ['latitudes up to 60 degrees, where the Sun sets every day',
               'the days that the Gregorian reform dropped are refused by '
               'design and not in the domain',
               'times are compared to 5 ms, the resolution of the Julian day '
               'and of the hour fractions']
REQUIRED = {'there-and-back': 8000, 'back-and-there': 8000, 'forms': 500,
            'part-day': 500,
            'next-day': 100, 'order': 4000, 'sweep': 2000}
TOL = 0.005
S = 86400


def gen(rng, tier, part, parts):
    n = 500 if tier == 'quick' else 9000
    for i in range(n):
        pl = TEHRAN if rng.random() < 0.3 else place(rng)
        d = day(rng)
        t = hms(rng)
        us = usec(rng) if rng.random() < 0.6 else 0
        if rng.random() < 0.06:
            t = (24, rng.choice((0, 0, 1, 2)), rng.randrange(60))
        elif rng.random() < 0.06:
            t = (23, 59, rng.randrange(50, 60))
        yield ['date', d, [*t, us], pl]
        yield ['jd', M.ordinal(*day(rng)) + 1721422.5 + rng.random()
               if rng.random() < 0.8 else
               round((M.ordinal(*d) + 1721422.5) * 48) / 48, pl]
        if i % 50 == 0:
            yield ['midnight', d, pl, rng.choice((1e-8, 5e-9, 1.5e-8))]
        if i % 12 == 0:
            yield ['forms', d, [*t, us], pl]
        if i % 25 == 0:
            yield ['sweep', d, pl, rng.random() / 40]


def start(date, pl):
    """The JD at which the date begins at the place."""
    return BC.jd_from_badi_date(tuple(date), *pl)


def next_day(date):
    return M.from_ordinal(M.ordinal(*date) + 1)


def secs(b):
    b = tuple(b) + (0,) * (7 - len(b))
    return b[3] * 3600 + b[4] * 60 + b[5] + b[6] / 1e6


def near_leap_day(d):
    return d[0] in CENTURIES and d[1] in (18, 0, 19)


def usable(d):
    n = next_day(d)
    return not (gap(d) or gap(n) or tuple(d) == (M.MAX, 19, 19))


def run(rec, case):
    globals()['run_' + case[0]](rec, *case[1:])


def run_date(rec, d, t, pl):
    d = tuple(d)
    if not usable(d):
        return
    rec.state(d, t, pl)
    jd = BC.jd_from_badi_date(d + tuple(t), *pl)
    b = BC.badi_date_from_jd(jd, *pl, us=True, short=True)
    got, ts = b[:3], secs(b)
    want_t = t[0] * 3600 + t[1] * 60 + t[2] + t[3] / 1e6
    s0 = start(d, pl)
    length = (start(next_day(d), pl) - s0) * S
    rec.expect(abs((jd - s0) * S - want_t) < TOL, 'elapsed', 'elapsed',
               lambda: f'{d} {t} {pl}: {(jd - s0) * S} s after the sunset')
    rec.expect(0 <= ts < S, 'time-range', 'time-range',
               lambda: f'{jd} {pl} -> {b}')
    ok = [(d, want_t)] if want_t < min(length, S) + TOL else []
    if want_t > length - TOL:
        ok.append((next_day(d), want_t - length))
        rec.ok('next-day')
    if length > S and S - TOL < want_t < length + TOL:
        ok.append('tail')
    diff = [(M.ordinal(*got) - M.ordinal(*x[0])) * S + ts - x[1]
            for x in ok if x != 'tail']
    same = any(abs(x) < TOL for x in diff)
    text = (f'{d} {t} at {pl} -> {jd} -> {b}; the day is {length:.3f} s long')
    rec.ok('there-and-back')
    if not same:
        late = (M.ordinal(*got) - M.ordinal(*d)) * S + ts - want_t
        if 'tail' in ok and got == next_day(d) and \
                abs(ts - (want_t - S)) < TOL:
            rec.bad('tail-of-long-day', text)
        elif near_leap_day(d) and min(abs(x) for x in diff + [late]) < 300:
            rec.bad('julian-leap-day', text)
        else:
            rec.bad('there-and-back', text)
    elif want_t > 80000:
        rec.sample('there-and-back', text)


def run_jd(rec, jd, pl):
    d = M.from_ordinal(int(jd - 1721422.5))
    if 2299140 < jd < 2299165 or not 1721503 < jd < M.MAXORD + 1721420:
        return
    b = BC.badi_date_from_jd(jd, *pl, us=True, short=True)
    d, ts = b[:3], secs(b)
    if not usable(d):
        return
    rec.state(jd, pl)
    s0 = start(d, pl)
    back = BC.jd_from_badi_date(tuple(b), *pl)
    off = (back - jd) * S
    text = f'{jd} at {pl} -> {b} -> {back} ({off} s)'
    rec.ok('back-and-there')
    length = (start(next_day(d), pl) - s0) * S
    prev = start(M.from_ordinal(M.ordinal(*d) - 1), pl)
    if abs(off) > TOL:
        if abs(jd - prev - 1) * S < 300 and s0 - prev > 1 and jd < s0 and \
                abs((jd - prev) * S - ts - S) < TOL:
            rec.bad('tail-of-long-day', text)
        elif near_leap_day(d) and abs(off) < 300:
            rec.bad('julian-leap-day', text)
        else:
            rec.bad('back-and-there', text)
        return
    # The moment lies in the day: after its sunset and before the next one.
    rec.expect(jd > s0 - TOL / S and (jd - s0) * S < length + TOL
               or near_leap_day(d), 'in-day', 'in-day',
               lambda: f'{text}: {(jd - s0) * S} s of {length}')
    # A little later is later.
    step = 7 / S
    c = BC.badi_date_from_jd(jd + step, *pl, us=True, short=True)
    if (s0 + length / S - jd) * S > 7.1 and S - (jd - s0) * S > 7.1 and \
            not near_leap_day(d):
        rec.expect(c[:3] == d and abs(secs(c) - ts - 7) < TOL, 'order',
                   'order', lambda: f'{text}; 7 s later {c}')


def run_forms(rec, d, t, pl):
    """The output options describe one and the same moment."""
    d = tuple(d)
    if not usable(d):
        return
    jd = BC.jd_from_badi_date(d + tuple(t), *pl)
    f = BC.badi_date_from_jd
    us = f(jd, *pl, us=True, short=True)
    y, m, dd = us[:3]
    ts = secs(us)
    text = f'{jd} at {pl}, us: {us}'
    pad = lambda b, n: tuple(b) + (0,) * (n - len(b))
    tr = f(jd, *pl, us=True, short=True, trim=True)
    rec.eq('forms', pad(tr, 7), pad(us, 7), text)
    rec.expect(len(tr) == 3 or tr[-1] != 0, 'forms', 'forms-trim',
               lambda: f'{text}: trim {tr}')
    lg = f(jd, *pl, us=True)
    rec.eq('forms', tuple(lg), M.long(y) + tuple(us[1:]), text)
    fr = f(jd, *pl, fraction=True)
    if ts < S - 0.1:
        rec.expect(fr[:2] == (y, m) and abs(fr[2] - dd - ts / S) < 2e-6,
                   'forms', 'forms-fraction',
                   lambda: f'{text}: fraction {fr}')
        back = BC.jd_from_badi_date(fr, *pl)
        rec.expect(abs((back - start(us[:3], pl)) * S - ts) < 0.15,
                   'part-day', 'part-day', lambda: f'{text}: {fr}: {back}')
    for x in (d[2] + 0.25, d[2] + 0.5, d[2] + (t[3] or 1) / 1e6):
        back = BC.jd_from_badi_date((*d[:2], x), *pl)
        rec.expect(abs((back - start(d, pl)) - x % 1) * S < TOL,
                   'part-day', 'part-day',
                   lambda: f'{d[:2]} {x} at {pl}: {back}')
    fl = pad(f(jd, *pl, short=True), 6)
    fs = fl[3] * 3600 + fl[4] * 60 + fl[5]
    rec.expect(fl[:3] == (y, m, dd) and abs(fs - ts) < TOL, 'forms',
               'forms-float', lambda: f'{text}: {fl}')
    # A long date is the same input as its short form only for the day.
    r = f(jd, *pl, rtd=True, short=True)
    near = dd + (ts / S > 0.5)
    if near <= (M.ayyam(y) if m == 0 else 19) and abs(ts / S - 0.5) > 1e-3:
        rec.eq('forms', tuple(r[:3]), (y, m, near), text)
    ut = BC.badi_date_from_timestamp((jd - 2440585.5) * S, *pl, us=True,
                                     short=True)
    rec.expect(abs((M.ordinal(*ut[:3]) - M.ordinal(y, m, dd)) * S + secs(ut)
                   - ts) < TOL + 0.01 or abs(ts) < 400 or ts > S - 400,
               'forms', 'forms-timestamp', lambda: f'{text}: {ut}')
    tsmp = BC.timestamp_from_badi_date(d + tuple(t), *pl)
    rec.expect(abs(tsmp - (jd - 2440585.5) * S) < TOL, 'forms',
               'forms-timestamp', lambda: f'{text}: {tsmp}')


def run_sweep(rec, d, pl, off):
    """Walk through two days; the dates and times never go back."""
    d = tuple(d)
    if not usable(d) or not usable(next_day(d)) or near_leap_day(d):
        return
    s0 = start(d, pl)
    last = None
    for i in range(-1, 84):
        jd = s0 + off + i / 41
        b = BC.badi_date_from_jd(jd, *pl, us=True, short=True)
        now = (M.ordinal(*b[:3]), secs(b))
        if last and now <= last:
            rec.bad('sweep', f'{jd} at {pl}: {b} after {last}')
        last = now
        rec.ok('sweep')
    rec.state('sweep', d, pl)


def run_midnight(rec, d, pl, eps):
    """The last millisecond before 24:00 of a day that is longer."""
    d = tuple(d)
    if not usable(d) or not usable(next_day(d)) or near_leap_day(d):
        return
    s0 = start(d, pl)
    if start(next_day(d), pl) - s0 < 1.0001:
        return
    jd = s0 + 1 - eps
    b = BC.badi_date_from_jd(jd, *pl, us=True, short=True)
    late = (M.ordinal(*b[:3]) - M.ordinal(*d)) * S + secs(b)
    rec.ok('midnight')
    if abs(late - S) > TOL:
        text = f'{jd} at {pl} is {eps * S} s before 24:00 of {d}: {b}'
        rec.bad('midnight', text)
