"""Finite alphabets shared by the checks.  Cases hold plain JSON-able values; datetimes travel as
[year, month, day, hour, minute, second, microsecond, offset_seconds]."""
import contextlib
import warnings
import datetime

UTC = datetime.timezone.utc


def dt(w):
    """case -> aware datetime (or naive when the offset is None)"""
    off = w[7]
    if isinstance(off, str):          # the name of a zone, and perhaps the fold
        from . import zones
        return datetime.datetime(*w[:7], tzinfo=zones.ZONES[off], fold=w[8] if len(w) > 8 else 0)
    tz = None if off is None else (UTC if off == 0 else datetime.timezone(datetime.timedelta(seconds=off)))
    return datetime.datetime(*w[:7], tzinfo=tz)


def W(y, m=1, d=1, h=0, mi=0, s=0, us=0, off=0):
    return [y, m, d, h, mi, s, us, off]


def from_dt(d, off=0):
    """naive UTC datetime -> case written at the given offset"""
    d = d + datetime.timedelta(seconds=off)
    return [d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond, off]


_ML = (31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)


def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def mlen(y, m):
    return 29 if m == 2 and leap(y) else _ML[m - 1]


def days(y):
    return [(m, d) for m in range(1, 13) for d in range(1, mlen(y, m) + 1)]


# years with something special about them: ends of the range, eras, century rules, epochs, both tables' ends
YEARS = [1, 2, 4, 100, 400, 999, 1000, 1066, 1492, 1582, 1583, 1600, 1700, 1752, 1799, 1800, 1850, 1858, 1899, 1900,
         1901, 1904, 1918, 1938, 1945, 1949, 1950, 1955, 1960, 1968, 1969, 1970, 1971, 1972, 1973, 1974, 1979, 1980,
         1981, 1984, 1987, 1989, 1990, 1991, 1996, 1999, 2000, 2001, 2004, 2006, 2007, 2009, 2012, 2013, 2014, 2015,
         2016, 2017, 2018, 2020, 2023, 2024, 2025, 2026, 2027, 2030, 2036, 2037, 2038, 2039, 2048, 2050, 2099, 2100,
         2101, 2200, 2262, 2263, 2400, 2500, 3000, 4000, 5000, 6000]
FAR_YEARS = [6001, 7000, 8000, 9000, 9998]
MODERN = [1950, 1960, 1968, 1970, 1972, 1973, 1984, 1990, 1999, 2000, 2003, 2004, 2012, 2014, 2016, 2017, 2020, 2024,
          2026, 2037, 2049, 2050]
CLOCK = [(0, 0, 0, 0), (0, 0, 0, 1), (0, 0, 59, 999999), (0, 59, 59, 500000), (1, 0, 0, 0), (3, 17, 42, 250000),
         (5, 59, 59, 999999), (6, 0, 0, 0), (8, 31, 7, 0), (9, 30, 30, 0), (11, 59, 59, 999999), (12, 0, 0, 0),
         (12, 30, 30, 0), (14, 15, 16, 123456), (17, 45, 1, 1), (18, 0, 0, 0), (20, 13, 1, 130320), (21, 5, 33, 0),
         (23, 0, 0, 0), (23, 59, 0, 0), (23, 59, 59, 0), (23, 59, 59, 999999)]
LATS = [0.0, 1e-9, -1e-9, 0.5, -0.5, 5.0, -5.0, 10.0, -10.0, 15.25, -15.25, 20.0, -20.0, 23.0, -23.0, 23.43, -23.43,
        23.45, -23.45, 24.0, -24.0, 30.0, -30.0, 35.0, -35.0, 40.0, -40.0, 42.206, -42.206, 45.0, -45.0, 50.0, -50.0,
        55.0, -55.0, 60.0, -60.0, 65.0, -65.0, 66.0, -66.0, 66.55, -66.55, 66.6, -66.6, 67.5, -67.5, 70.0, -70.0,
        75.0, -75.0, 80.0, -80.0, 85.0, -85.0, 88.0, -88.0, 89.0, -89.0, 89.5, -89.5, 89.9, -89.9, 89.999, -89.999,
        89.9999999, -89.9999999, 90.0, -90.0]
LONS = [0.0, 1e-9, -1e-9, 0.25, -0.25, 7.5, -7.5, 15.0, -15.0, 30.0, -30.0, 45.0, -45.0, 60.0, -60.0, 71.382, -71.382,
        82.5, -82.5, 90.0, -90.0, 105.1786, -105.1786, 120.0, -120.0, 135.0, -135.0, 150.0, -150.0, 165.0, -165.0,
        172.5, -172.5, 179.0, -179.0, 179.999999, -179.999999, 180.0, -180.0]
WIDE_LONS = LONS + [181.0, -181.0, 200.0, -200.0, 270.0, -270.0, 288.618, -300.0, 359.0, -359.0, 359.999999, 360.0,
                    -360.0, 361.0, 450.0, 540.0, 600.0, 719.0, 720.0]
ELEVS = [0, 1, -430.0, -100.0, 10.5, 100.0, 500.0, 999.0, 1000.0, 1830.14, 2000.0, 2500.0, 3000.0, 4000.0, 5000.0,
         5500.0, 6000.0, 7000.0, 8000.0, 8848.0, 9000.0]
TEMPS = [288.15, 180.0, 200.0, 220.0, 233.15, 250.0, 260.0, 272.0, 273.15, 275.0, 280.0, 283.0, 285.0, 290.0, 293.15,
         298.15, 300.0, 310.0, 323.15, 330.0, 340.0]
WIDE_LATS = LATS + [x + 0.5 for x in range(-90, 90)]
WIDE_ELEVS = ELEVS + [1e-6, -450.0, 12000.0, 20500.0, 40000.0]
PRESS = [101325.0, 0.0, 1.0, 100.0, 1000.0, 10000.0, 30000.0, 31000.0, 50000.0, 70000.0, 82000.0, 90000.0, 99999.0,
         100000.0, 101000.0, 101324.0, 102000.0, 105000.0, 108500.0, 110000.0]
WIDE_TEMPS = TEMPS + [150.0, 355.0, 400.0]
WIDE_PRESS = PRESS + [1e-4, 121000.0, 150000.0]
ALL_YEARS = YEARS + FAR_YEARS + [9999]
OFFSETS = [0, 3600, -3600, 1, -1, 59, -59, 60, -60, 1800, -1800, 5 * 3600 + 1800, 5 * 3600 + 2700, -9 * 3600 - 1800,
           12 * 3600 + 2700, 14 * 3600, -12 * 3600, 18 * 3600 + 3, -18 * 3600 - 3, 23 * 3600 + 3599, -23 * 3600 - 3599,
           -4 * 3600 - 3 * 60 - 58, 1172, 8 * 3600, -8 * 3600]


def stride(xs, n):
    """n values spread over the list, ends included (a coarser alphabet, not a sample drawn at random)"""
    if len(xs) <= n:
        return list(xs)
    return [xs[round(i * (len(xs) - 1) / (n - 1))] for i in range(n)]


def star(base, axes):
    """for every axis every value, the other axes at the base values (deduplicated, base first)"""
    res, seen = [], set()
    for cand in [list(base)] + [[v if j == i else b for j, b in enumerate(base)]
                                for i, ax in enumerate(axes) for v in ax]:
        k = repr(cand)
        if k not in seen:
            seen.add(k)
            res.append(cand)
    return res


def pairs(base, axes):
    """every pair of values of every two axes, the other axes at the base values"""
    res, seen = [], set()
    n = len(axes)
    for i in range(n):
        for j in range(i + 1, n):
            for a in axes[i]:
                for b in axes[j]:
                    c = list(base)
                    c[i], c[j] = a, b
                    k = repr(c)
                    if k not in seen:
                        seen.add(k)
                        res.append(c)
    return res


def product(*axes):
    res = [[]]
    for ax in axes:
        res = [r + [v] for r in res for v in ax]
    return res


def interleaved(n, *axes):
    """a Latin-hypercube style pairing without randomness: case k takes value k*step_i of axis i, with steps
    coprime to the axis lengths, so that every axis is swept and combinations vary; n cases"""
    from math import gcd
    res = []
    steps = []
    for i, ax in enumerate(axes):
        s = max(1, int(len(ax) * (0.6180339887 + 0.07 * i) % len(ax)))
        while gcd(s, len(ax)) != 1:
            s += 1
        steps.append(s)
    for k in range(n):
        res.append([ax[(k * s + k // len(ax)) % len(ax)] for ax, s in zip(axes, steps)])
    return res


def instants_calendar(year, clocks):
    return [W(year, m, d, *c) for m, d in days(year) for c in clocks]


def instants_boundaries(years, clocks=None):
    """first and last moments of every month of the given years, leap days, mid-month"""
    res = []
    for y in years:
        for m in range(1, 13):
            for d in sorted({1, 2, 14, 28, mlen(y, m) - 1, mlen(y, m)}):
                for c in clocks or [(0, 0, 0, 0), (12, 30, 30, 0), (23, 59, 59, 999999)]:
                    res.append(W(y, m, d, *c))
    return res


def angle_diff(a, b):
    """signed difference of two angles in degrees, in (-180, 180]"""
    x = (a - b) % 360.0
    return x - 360.0 if x > 180.0 else x


def same_number(a, b, rel=1e-9, absolute=1e-9):
    """scalars equal within rounding; nan equals nan, inf equals inf of the same sign"""
    a, b = float(a), float(b)
    if a != a or b != b:
        return a != a and b != b
    if a in (float("inf"), float("-inf")) or b in (float("inf"), float("-inf")):
        return a == b
    return abs(a - b) <= absolute + rel * max(abs(a), abs(b))


@contextlib.contextmanager
def heard():
    """the warnings that Python shows to a user who has set nothing, each time they are given"""
    with warnings.catch_warnings(record=True) as log:
        warnings.simplefilter("always")
        for category in (DeprecationWarning, PendingDeprecationWarning, ImportWarning, ResourceWarning):
            warnings.simplefilter("ignore", category)
        yield log
