"""Naw-Ruz is the Tehran day of the March equinox."""
import datetime as dt
import json
import math
import os

from .. import astro, core
from ..api import BC, D, M, TEHRAN, is_fudge

PROP = 'C01'
RULE = ('one case per Badi year (all 3004 of them, in both tiers): the year '
        'start the code reports, by every public route, is compared with the '
        'committed table, with the published tables, and with the sunset '
        'before the independently computed equinox; a distinct case is a year')
ASSUMPTIONS = [
    'the March equinox of mon/astro.py is good to 2 minutes (it is compared '
    'with the 424 published equinoxes of 1788 to 2211 in every run); years '
    'whose equinox lies within 4 minutes of the sunset are decided by the '
    'table alone',
    'before the year -278 (1566) the calendar is a documented proleptic '
    'extension and is compared with the committed table only']
REQUIRED = {'table': 2900, 'equinox-day': 1300, 'equinox-instant': 1300,
            'world-centre': 50, 'chart': 200, 'boundary': 5000,
            'published-equinox': 400}
HERE = os.path.join(core.VERIF, 'mon', 'data')


def setup(rec):
    global PUB, EQX
    with open(os.path.join(HERE, 'published.json'), encoding='utf-8') as fh:
        PUB = json.load(fh)
    EQX = {}
    with open(os.path.join(HERE, 'equinox.txt'), encoding='utf-8') as fh:
        for line in fh:
            y, d, h, m = map(int, line.split())
            EQX[y] = (dt.date(y, 3, d).toordinal() + 1721424.5
                      + (h + m / 60) / 24)


def gen(rng, tier, part, parts):
    for y in core.share(range(M.MIN, M.MAX + 1), part, parts):
        yield ['year', y]


def run(rec, case):
    y = case[1]
    o = M.START[y]
    rec.state(y)
    g = BC.naw_ruz_g_date(y)
    rec.eq('table', (g[0], g[1], math.floor(g[2])), M.gdate(o),
           f'Naw-Ruz {y}')
    g6 = BC.naw_ruz_g_date(y, hms=True)
    rec.eq('table-hms', tuple(g6[:3]), M.gdate(o), f'Naw-Ruz {y} with hms')
    n = D.date(y, 1, 1).toordinal()
    if is_fudge(y) and n == o + 1:
        rec.bad('fudge-ordinal', f'date({y}, 1, 1).toordinal() is {n}, the '
                f'day is {o}')
    else:
        rec.eq('ordinal', n, o, f'date({y}, 1, 1).toordinal()')
    if str(y) in PUB['world_centre']:
        rec.eq('world-centre', [g[0], g[1], math.floor(g[2])],
               PUB['world_centre'][str(y)], f'Naw-Ruz {y}')
    if str(y) in PUB['chart']:
        *want, wd = PUB['chart'][str(y)]
        rec.eq('chart', [g[0], g[1], math.floor(g[2])], want, f'Naw-Ruz {y}')
        rec.eq('chart-weekday', D.date(y, 1, 1).weekday(), wd, f'Naw-Ruz {y}')
    # The boundary: a little before and after the reported sunset.
    jd = BC.jd_from_badi_date((y, 1, 1))
    frac = (jd + TEHRAN[2] / 24 + 0.5) % 1      # local standard time
    rec.expect(17.4 / 24 < frac < 18.7 / 24, 'sunset-hour', 'sunset-hour',
               lambda: f'Naw-Ruz {y} begins at {frac * 24:.3f} h in Tehran')
    if y > M.MIN:
        rec.eq('boundary', BC.badi_date_from_jd(jd - 0.002, short=True)[:3],
               (y - 1, 19, 19), f'3 min before Naw-Ruz {y}')
    rec.eq('boundary', BC.badi_date_from_jd(jd + 0.002, short=True)[:3],
           (y, 1, 1), f'3 min after Naw-Ruz {y}')
    # Astronomy.
    if y < -278:
        return
    gy = y + 1843
    e = astro.longitude_moment(gy, 0)
    if gy in EQX:
        rec.expect(abs(e - EQX[gy]) < 2 / 1440, 'published-equinox',
                   'oracle-equinox', f'equinox of {gy}: {e} {EQX[gy]}')
    so, gap = first_sunset(e)
    if not 0.003 < gap < 0.997:
        rec.ok('borderline')
        return
    td, _ = first_sunset(e + astro.delta_t(gy + 0.21))
    if o == td != so:
        rec.ok('equinox-day')
        rec.bad('year-start-in-dynamical-time', f'Naw-Ruz {y}: the equinox '
                f'of {gy} is {gap:.4f} d after the sunset that begins '
                f'{M.gdate(so)}, the code has {M.gdate(o)}')
        return
    rec.eq('equinox-day', o, so, f'Naw-Ruz {y} against the equinox of {gy} '
           f'({gap:.4f} d after the sunset)')
    if rec.eq('equinox-date', math.floor(g[2]), M.gdate(so)[2],
              f'Naw-Ruz {y} against the equinox of {gy}'):
        rec.sample('equinox-day', f'{y}: sunset of {M.gdate(so)}, equinox '
                   f'{gap:.4f} d later')
    if y >= -260:
        got = BC.badi_date_from_jd(e - 2, short=True)[:3]
        rec.eq('equinox-instant', got, (y, 1, 1),
               f'the date at the equinox of {gy}')


def first_sunset(e):
    """Ordinal of the Tehran day of the last sunset before e, and the gap."""
    day = math.floor(e + TEHRAN[1] / 360 + 0.5)
    noon = day - TEHRAN[1] / 360
    s = astro.event(noon, *TEHRAN[:2], 'set')
    if s > e:
        day -= 1
        s = astro.event(noon - 1, *TEHRAN[:2], 'set')
    return math.floor(day - 1721424.5), e - s
