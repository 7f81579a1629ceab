"""The ISO week calendar of the Badi year."""
from .. import core
from ..api import D, M, gap, is_fudge, mk, ymd

PROP = 'C09'
RULE = ('every year of the range in both tiers: its first and last weeks and '
        'random others; isocalendar against the rule that week 1 holds the '
        'fourth of Baha and weeks begin on Jalal, fromisocalendar as the '
        'inverse; distinct: (year, week)')
ASSUMPTIONS = ['the years around -1796, -1792, -1788 (whose ordinals are '
               'off, see C03) are not drawn']
REQUIRED = {'isocalendar': 30000, 'fromisocalendar': 15000, 'refused': 3000,
            'last-week': 2900}


def gen(rng, tier, part, parts):
    for y in core.share(range(M.MIN, M.MAX + 1), part, parts):
        if any(is_fudge(y + i) for i in (-1, 0, 1)):
            continue
        if y in (M.MIN, M.MAX):
            weeks = range(1, 54)
        elif tier == 'quick':
            weeks = {1, 52, 53, rng.randint(2, 51)}
        else:
            weeks = {1, 2, 51, 52, 53} | {rng.randint(3, 50)
                                          for _ in range(20)}
        yield ['year', y, sorted(weeks), rng.randint(1, 7)]


def run(rec, case):
    _, y, weeks, seed = case
    w1 = M.week1(y)
    n_weeks = M.weeks(y)
    rec.ok('last-week')
    # Days on both sides of the new year.
    for o in range(M.START[y] - 3, M.START[y] + 4):
        one(rec, o)
    for w in weeks:
        for k in {1 + 6 * (w % 2), seed}:
            o = w1 + (w - 1) * 7 + k - 1
            if not M.MINORD <= o <= M.MAXORD:
                continue
            date = M.from_ordinal(o)
            if gap(date):
                continue
            short = bool((w + k) % 2)
            if w > n_weeks:
                # The week is not there.
                rec.raises('refused', (AssertionError, ValueError),
                           D.date.fromisocalendar, y, w, k, short=short)
                continue
            rec.state(y, w)
            one(rec, o)
            r, got = attempt(y, w, k, short)
            rec.ok('fromisocalendar')
            text = f'fromisocalendar({y}, {w}, {k}): {got}, wanted {date}'
            if r == 'ok' and got == (date, short):
                continue
            if n_weeks == 53 and w == 52 and r == 'ok' and \
                    got == (M.from_ordinal(o + 7), short):
                rec.bad('week-52-is-week-53', text)
            elif n_weeks == 53 and w == 53 and r == 'error':
                rec.bad('week-53-refused', text)
            else:
                rec.bad('fromisocalendar', text)
    for k in (0, 8, -1):
        rec.raises('refused', (AssertionError, ValueError),
                   D.date.fromisocalendar, y, 1 + seed, k)
    for w in (0, -1, 54, 60):
        rec.raises('refused', (AssertionError, ValueError),
                   D.date.fromisocalendar, y, w, seed)


def attempt(y, w, k, short):
    try:
        x = D.date.fromisocalendar(y, w, k, short=short)
    except (AssertionError, ValueError) as e:
        return 'error', str(e)
    return 'ok', (ymd(x), x.is_short)


def one(rec, o):
    if not M.MINORD <= o <= M.MAXORD:
        return
    d = M.from_ordinal(o)
    if gap(d) or any(is_fudge(d[0] + i) for i in (-1, 0, 1)):
        return
    want = M.isocal(o)
    x = mk(d, o % 2)
    got = x.isocalendar()
    if not rec.eq('isocalendar', tuple(got), want, f'{d}'):
        return
    if o % 4 == 0:
        rec.eq('isocalendar', (got.year, got.week, got.weekday), want,
               f'fields of {got}')
        rec.eq('isoweekday', x.isoweekday(), want[2], f'{d}')
        z = D.datetime(*d, None, None, 12)
        rec.eq('isocalendar', tuple(z.isocalendar()), want, f'{z!r}')
    if want[1] == 53:
        rec.sample('isocalendar', f'{d} is {want}')
