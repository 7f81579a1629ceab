"""An independent model of the Sun, used as an oracle.

Nothing here comes from the code under test.  The Sun's longitude is the
truncated VSOP87 series published with the NREL Solar Position Algorithm, Delta
T is the Espenak and Meeus polynomial set, the rise and set times are found by
iterating on the altitude of the Sun at the instant itself.
JD below always means the real Julian day number in UT.
"""
import math

R = math.pi / 180

_L0 = ((175347046, 0, 0), (3341656, 4.6692568, 6283.07585),
       (34894, 4.6261, 12566.1517), (3497, 2.7441, 5753.3849),
       (3418, 2.8289, 3.5231), (3136, 3.6277, 77713.7715),
       (2676, 4.4181, 7860.4194), (2343, 6.1352, 3930.2097),
       (1324, 0.7425, 11506.7698), (1273, 2.0371, 529.691),
       (1199, 1.1096, 1577.3435), (990, 5.233, 5884.927),
       (902, 2.045, 26.298), (857, 3.508, 398.149), (780, 1.179, 5223.694),
       (753, 2.533, 5507.553), (505, 4.583, 18849.228), (492, 4.205, 775.523),
       (357, 2.92, 0.067), (317, 5.849, 11790.629), (284, 1.899, 796.298),
       (271, 0.315, 10977.079), (243, 0.345, 5486.778), (206, 4.806, 2544.314),
       (205, 1.869, 5573.143), (202, 2.458, 6069.777), (156, 0.833, 213.299),
       (132, 3.411, 2942.463), (126, 1.083, 20.775), (115, 0.645, 0.98),
       (103, 0.636, 4694.003), (102, 0.976, 15720.839), (102, 4.267, 7.114),
       (99, 6.21, 2146.17), (98, 0.68, 155.42), (86, 5.98, 161000.69),
       (85, 1.3, 6275.96), (85, 3.67, 71430.7), (80, 1.81, 17260.15))
_L1 = ((628331966747, 0, 0), (206059, 2.678235, 6283.07585),
       (4303, 2.6351, 12566.1517), (425, 1.59, 3.523), (119, 5.796, 26.298),
       (109, 2.966, 1577.344), (93, 2.59, 18849.23), (72, 1.14, 529.69),
       (68, 1.87, 398.15), (67, 4.41, 5507.55), (59, 2.89, 5223.69),
       (56, 2.17, 155.42), (45, 0.4, 796.3), (36, 0.47, 775.52))
_L2 = ((52919, 0, 0), (8720, 1.0721, 6283.0758), (309, 0.867, 12566.152),
       (27, 0.05, 3.52), (16, 5.19, 26.3), (16, 3.68, 155.42))
_L3 = ((289, 5.844, 6283.076), (35, 0, 0), (17, 5.49, 12566.15))
_L4 = ((114, 3.142, 0), (8, 4.13, 6283.08))


def poly(x, cs):
    r = 0.0
    for c in reversed(cs):
        r = r * x + c
    return r


def month_of(jd):
    """(year, month) of the proleptic Gregorian calendar."""
    n = math.floor(jd - 1721119.5)          # days since 0000-03-01
    era, n = divmod(n, 146097)
    y = (n - n // 1460 + n // 36524 - n // 146096) // 365
    m = (5 * (n - (365 * y + y // 4 - y // 100)) + 2) // 153
    y += era * 400
    return (y, m + 3) if m < 10 else (y + 1, m - 9)


def delta_t(year):
    """Espenak and Meeus 2006, in days."""
    y = year
    if y < -500 or y >= 2150:
        s = -20 + 32 * ((y - 1820) / 100) ** 2
    elif y < 500:
        s = poly(y / 100, (10583.6, -1014.41, 33.78311, -5.952053, -0.1798452,
                           0.022174192, 0.0090316521))
    elif y < 1600:
        s = poly((y - 1000) / 100, (1574.2, -556.01, 71.23472, 0.319781,
                                    -0.8503463, -0.005050998, 0.0083572073))
    elif y < 1700:
        s = poly(y - 1600, (120, -0.9808, -0.01532, 1 / 7129))
    elif y < 1800:
        s = poly(y - 1700, (8.83, 0.1603, -0.0059285, 0.00013336,
                            -1 / 1174000))
    elif y < 1860:
        s = poly(y - 1800, (13.72, -0.332447, 0.0068612, 0.0041116,
                            -0.00037436, 0.0000121272, -0.0000001699,
                            0.000000000875))
    elif y < 1900:
        s = poly(y - 1860, (7.62, 0.5737, -0.251754, 0.01680668,
                            -0.0004473624, 1 / 233174))
    elif y < 1920:
        s = poly(y - 1900, (-2.79, 1.494119, -0.0598939, 0.0061966,
                            -0.000197))
    elif y < 1941:
        s = poly(y - 1920, (21.20, 0.84493, -0.076100, 0.0020936))
    elif y < 1961:
        s = poly(y - 1950, (29.07, 0.407, -1 / 233, 1 / 2547))
    elif y < 1986:
        s = poly(y - 1975, (45.45, 1.067, -1 / 260, -1 / 718))
    elif y < 2005:
        s = poly(y - 2000, (63.86, 0.3345, -0.060374, 0.0017275,
                            0.000651814, 0.00002373599))
    elif y < 2050:
        s = poly(y - 2000, (62.92, 0.32217, 0.005589))
    else:
        s = (-20 + 32 * ((y - 1820) / 100) ** 2 - 0.5628 * (2150 - y))
    return s / 86400


def year_of(jd):
    return 2000 + (jd - 2451544.5) / 365.2425


def sun(jde):
    """Apparent longitude, true obliquity, nutation in longitude (degrees)."""
    tm = (jde - 2451545.0) / 365250
    t = tm * 10
    lon = 0.0
    f = 1.0
    for ser in (_L0, _L1, _L2, _L3, _L4):
        lon += f * sum(a * math.cos(b + c * tm) for a, b, c in ser)
        f *= tm
    lon = lon / 1e8 / R + 180
    om = (125.04452 - 1934.136261 * t) * R
    l1 = (280.4665 + 36000.7698 * t) * R
    l2 = (218.3165 + 481267.8813 * t) * R
    dpsi = (-17.20 * math.sin(om) - 1.32 * math.sin(2 * l1)
            - 0.23 * math.sin(2 * l2) + 0.21 * math.sin(2 * om)) / 3600
    deps = (9.20 * math.cos(om) + 0.57 * math.cos(2 * l1)
            + 0.10 * math.cos(2 * l2) - 0.09 * math.cos(2 * om)) / 3600
    eps = poly(t / 100, (84381.448, -4680.93, -1.55, 1999.25, -51.38, -249.67,
                         -39.05, 7.12, 27.87, 5.79, 2.45)) / 3600
    m = (357.52911 + 35999.05029 * t) * R
    ecc = 0.016708634 - 0.000042037 * t
    r = 1.000001018 * (1 - ecc * ecc) / (1 + ecc * math.cos(m))
    lon += dpsi - 20.4898 / 3600 / r - 0.09033 / 3600
    return lon % 360, eps + deps, dpsi


def sun_eq(jd):
    """Right ascension, declination, apparent Greenwich sidereal time."""
    jde = jd + delta_t(year_of(jd))
    lam, eps, dpsi = sun(jde)
    a = math.atan2(math.cos(eps * R) * math.sin(lam * R), math.cos(lam * R))
    d = math.asin(math.sin(eps * R) * math.sin(lam * R))
    t = (jd - 2451545.0) / 36525
    th = (280.46061837 + 360.98564736629 * (jd - 2451545.0)
          + 0.000387933 * t * t - t ** 3 / 38710000
          + dpsi * math.cos(eps * R))
    return a / R, d / R, th % 360


def altitude(jd, lat, lon):
    a, d, th = sun_eq(jd)
    h = (th + lon - a) * R
    return math.asin(math.sin(lat * R) * math.sin(d * R)
                     + math.cos(lat * R) * math.cos(d * R) * math.cos(h)) / R


def _wrap(x):
    return (x + 180) % 360 - 180


def event(noon, lat, lon, kind, alt=-0.8333):
    """The sunrise, sunset, or transit nearest to the local mean noon."""
    jd = noon + {'rise': -0.25, 'set': 0.25, 'transit': 0}[kind]
    for _ in range(12):
        a, d, th = sun_eq(jd)
        if kind == 'transit':
            want = 0.0
        else:
            c = ((math.sin(alt * R) - math.sin(lat * R) * math.sin(d * R))
                 / (math.cos(lat * R) * math.cos(d * R)))
            if not -1 < c < 1:
                return None
            want = math.acos(c) / R * (1 if kind == 'set' else -1)
        step = _wrap(want - (th + lon - a)) / 360.98564736629
        jd += step
        if abs(step) < 1e-7:
            break
    return jd


def longitude_moment(year, lam):
    """The JD (UT) at which the Sun reaches the longitude lam in g. year."""
    jde = 2451623.8 + 365.2422 * (year - 2000) + lam / 360 * 365.2422
    for _ in range(12):
        d = _wrap(lam - sun(jde)[0]) / 360 * 365.2422
        jde += d
        if abs(d) < 1e-6:
            break
    return jde - delta_t(year + (0.21 + lam / 360))
