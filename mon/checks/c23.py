"""The position of the Sun and the rotation of the Earth."""
import math

from .. import astro
from ..api import BC, GC

PROP = 'C23'
RULE = ('cases are (moment, moment, latitude, hour angle); the oracle is an '
        'independent solar model; distinct: the moments')
ASSUMPTIONS = ['moments of the years -150 to 3100; each quantity is allowed '
               'one and a half times the error its theory has over them',
               'the unit of a result is degrees, or radians where the method '
               'says so']
REQUIRED = {'longitude': 20000, 'equatorial': 20000, 'obliquity': 10000,
            'nutation': 20000, 'delta-t': 10000, 'sidereal': 10000,
            'altitude': 10000, 'series': 20000, 'apparent': 10000,
            'history': 8000, 'units': 40000, 'centuries': 5000,
            'hour-angle': 5000, 'J2000': 400}
R = math.pi / 180
J2000 = 2451545.0


def gen(rng, tier, part, parts):
    for i in range(300 if tier == 'quick' else 12000):
        r = rng.random()
        y = (rng.uniform(-150, 3100) if r < 0.6 else
             rng.uniform(1580, 2200) if r < 0.95 else
             rng.choice((500, 1600, 1700, 1800, 1860, 1900, 1920, 1941, 1961,
                         1986, 2005, 2050, 2150)) + rng.uniform(-1, 1))
        jd = 1721059.5 + y * 365.2425
        if rng.random() < 0.1:
            jd = rng.choice((math.floor(jd) + 0.5, math.floor(jd), J2000,
                             J2000 + 0.5, J2000 - 36525))
        yield ['moment', jd, jd + rng.choice((1, -1, 0.5, 1e-3, 36525.0)),
               rng.uniform(-89, 89), rng.uniform(-180, 180)]
    for i in range(10):
        yield ['fresh', rng.choice((0, 0.0, 1e-9, -0.25, 0.1,
                                    rng.uniform(-20, 11))), rng.randrange(6)]


def run(rec, case):
    globals()['run_' + case[0]](rec, *case[1:])


def w(x):
    return abs((x + 180) % 360 - 180)


def near(rec, event, key, got, want, tol, text, angle=True):
    d = w(got - want) if angle else abs(got - want)
    return rec.expect(d <= tol, event, key, lambda: f'{text}: {key} is {got},'
                      f' the oracle says {want}')


def run_moment(rec, jd, jd2, lat, h):
    rec.state(jd)
    t = f'{jd}'
    tc = BC._julian_centuries(jd)
    tm = BC._julian_millennia(jd)
    near(rec, 'centuries', 'centuries', tc, (jd - J2000) / 36525, 1e-12, t,
         False)
    near(rec, 'centuries', 'millennia', tm, tc / 10, 1e-12, t, False)
    lam, eps, dpsi = astro.sun(jd)
    ra = math.atan2(math.cos(eps * R) * math.sin(lam * R),
                    math.cos(lam * R)) / R
    de = math.asin(math.sin(eps * R) * math.sin(lam * R)) / R
    low = BC._sun_apparent_longitude(tc)
    true = BC._sun_true_longitude(tc)
    near(rec, 'longitude', 'longitude', low, lam, 0.015, t)
    near(rec, 'longitude', 'true-longitude', true, lam + 0.00569 - dpsi,
         0.015, t)
    near(rec, 'longitude', 'equation-of-center',
         BC._sun_mean_longitude(tc) + BC._sun_equation_of_center(tc), true,
         1e-9, t)
    got = BC._sun_apparent_right_ascension(tc)
    near(rec, 'equatorial', 'right-ascension', got, ra, 0.0155, t)
    rec.expect(0 <= got < 360, 'equatorial', 'range', f'{t}: {got}')
    dec = BC._sun_apparent_declination(tc)
    near(rec, 'equatorial', 'declination', dec, de, 0.0063, t, False)
    # The pair belongs together: both are of one point of the ecliptic.
    e = BC._true_obliquity_of_ecliptic(tc)
    near(rec, 'equatorial', 'ecliptic', math.tan(dec * R) * math.cos(e * R),
         math.sin(got * R) * math.sin(e * R), 5e-5, t, False)
    near(rec, 'obliquity', 'obliquity', e, eps, 9e-5, t, False)
    psi = BC._nutation_longitude(tc)
    obl = BC._nutation_obliquity(tc)
    near(rec, 'nutation', 'nutation-longitude', psi, dpsi, 1.0 / 3600, t,
         False)
    om = (125.04452 - 1934.136261 * tc) * R
    l1 = (280.4665 + 36000.7698 * tc) * R
    deps = (9.20 * math.cos(om) + 0.57 * math.cos(2 * l1)) / 3600
    near(rec, 'nutation', 'nutation-obliquity', obl, deps, 0.4 / 3600, t,
         False)
    both = BC._nutation_obliquity_longitude(tc)
    rec.eq('nutation', both, (psi, obl), t)
    for deg, one in zip(BC._nutation_obliquity_longitude(tc, degrees=True),
                        both):
        # The sums are in degrees and are converted to degrees again.
        rec.ok('nutation')
        if w(deg - one) > 1e-9:
            rec.bad('degrees-as-radians' if w(deg - one / R) < 1e-9 else
                    'nutation-degrees', f'{t}: {deg} degrees, {one}')
    rec.eq('nutation', (BC._nutation_longitude(tc, degrees=True),
                        BC._nutation_obliquity(tc, degrees=True)),
           BC._nutation_obliquity_longitude(tc, degrees=True), t)
    # What the object was asked before does not matter.
    BC._nutation_longitude(BC._julian_centuries(jd2))
    rec.eq('history', BC._nutation_obliquity(tc), obl, f'{t} after {jd2}')
    BC._nutation_obliquity(BC._julian_centuries(jd2))
    rec.eq('history', BC._nutation_longitude(tc), psi, f'{t} after {jd2}')
    rec.eq('history', GC._sun_apparent_right_ascension(tc), got, t)
    # Nor the unit it was asked for.
    tc2 = BC._julian_centuries(jd2)
    deg = dict(zip('lo', BC._nutation_obliquity_longitude(tc, degrees=True)))
    rad = dict(zip('lo', both))
    n = int(h * 1e6) & 0xFFFF
    for i in range(8):
        k, unit, other = 'lo'[n & 1], n >> 1 & 1, n >> 2 & 3
        n = (n >> 3) ^ (n << 5 & 0xFFFF)
        fn = BC._nutation_longitude if k == 'l' else BC._nutation_obliquity
        if other == 3:
            fn(tc2, degrees=bool(n & 1))
        rec.eq('units', fn(tc, degrees=True) if unit else fn(tc),
               (deg if unit else rad)[k], f'{fn.__name__}({t}), degrees: '
               f'{unit}, after other calls')
    dt = BC._delta_t(jd, seconds=True)
    # As documented only the year and month of a date count; the date is one
    # of the historical or of the proleptic calendar.
    want = [astro.delta_t(y + (m - 0.5) / 12) * 86400 for y, m in
            {astro.month_of(jd + k) for k in range(-12, 7)}]
    rec.expect(min(abs(dt - w) for w in want) < 1e-6, 'delta-t', 'delta-t',
               lambda: f'{t}: {dt} s, one of {want}')
    near(rec, 'delta-t', 'delta-t-days', BC._delta_t(jd) * 86400, dt, 1e-6,
         t, False)
    ut = (280.46061837 + 360.98564736629 * (jd - J2000)
          + 0.000387933 * tc * tc - tc ** 3 / 38710000)
    near(rec, 'sidereal', 'mean-sidereal',
         BC._mean_sidereal_time_greenwich(tc), ut, 1e-5, t)
    near(rec, 'sidereal', 'sidereal',
         BC._apparent_sidereal_time_greenwich(tc),
         ut + dpsi * math.cos(eps * R), 3e-4, t)
    alt = math.asin(math.sin(lat * R) * math.sin(dec * R) + math.cos(lat * R)
                    * math.cos(dec * R) * math.cos(h * R)) / R
    near(rec, 'altitude', 'altitude', BC._altitude(dec, lat, h), alt, 1e-6,
         f'{dec} {lat} {h}', False)
    if abs(lat) < 60:
        a = BC._approx_local_hour_angle(tc, lat)
        c = BC._altitude(dec, lat, a)
        near(rec, 'altitude', 'horizon', c, -0.8333, 0.02,
             f'{t} {lat}: hour angle {a}', False)
    x = (h + 7 * lat) % 360
    got = BC._local_hour_angle(x, h, lat)
    near(rec, 'hour-angle', 'hour-angle', got, x + h - lat, 1e-9,
         f'{x} {h} {lat}')
    rec.expect(-180 <= got <= 180, 'hour-angle', 'hour-angle', f'{got}')
    run_series(rec, jd, tm, t, lam)


def run_series(rec, jd, tm, t, lam):
    helio = 0.0
    f = 1.0
    for ser in (astro._L0, astro._L1, astro._L2, astro._L3, astro._L4):
        helio += f * sum(a * math.cos(b + c * tm) for a, b, c in ser)
        f *= tm
    helio = helio / 1e8 / R
    deg = BC._heliocentric_ecliptical_longitude(tm, degrees=True)
    rad = BC._heliocentric_ecliptical_longitude(tm)
    near(rec, 'series', 'heliocentric', deg, helio, 0.0007, t)
    near(rec, 'series', 'radians', rad / R, deg, 1e-6, t)
    b = BC._heliocentric_ecliptical_latitude(tm, degrees=True)
    near(rec, 'series', 'latitude', b, 0, 2.0 / 3600, t)
    near(rec, 'series', 'latitude-radians',
         BC._heliocentric_ecliptical_latitude(tm) / R, b, 1e-6, t)
    tc = tm * 10
    m = (357.52911 + 35999.05029 * tc) * R
    ecc = BC._eccentricity_earth_orbit(tc)
    near(rec, 'series', 'eccentricity', ecc, 0.016708634 - 0.000042037 * tc,
         1e-4, t, False)
    e = 0.016708634 - 0.000042037 * tc
    r = 1.000001018 * (1 - e * e) / (1 + e * math.cos(m + 2 * e
                                                      * math.sin(m)))
    got = BC._radius_vector(tm)
    near(rec, 'series', 'radius', got, r, 2.5e-4, t, False)
    lat = BC._apparent_solar_latitude(jd)
    near(rec, 'apparent', 'apparent-latitude', lat, 0, 2.5 / 3600, t)
    lon = BC._apparent_solar_longitude(jd)
    ab = BC._aberration(tm)
    near(rec, 'apparent', 'aberration-degrees', ab, -20.4898 / 3600 / got,
         2e-4, t, False)
    if w(lon - lam) < 0.0015:
        rec.ok('apparent')
    else:
        # Aberration and nutation, in degrees, are added to radians.
        psi = BC._nutation_longitude(tc)
        wrong = lam + 20.4898 / 3600 / got - psi + (ab + psi) / R
        rec.ok('apparent')
        rec.bad('degrees-as-radians' if w(lon - wrong) < 0.0015
                else 'apparent-longitude',
                f'{t}: {lon}, the oracle says {lam}')


def run_fresh(rec, tc, which):
    """A new object has the same Sun as a used one."""
    new = type((BC, GC)[which % 2])()
    name = ('_nutation_longitude', '_nutation_obliquity',
            '_true_obliquity_of_ecliptic')[which // 2]
    BC._nutation_longitude(tc + 1)
    rec.eq('J2000', getattr(new, name)(tc), getattr(BC, name)(tc),
           f'{name}({tc}) of a new object')
