"""Corner alphabets that every check with instants, places or atmospheres runs through: instants written in zones with daylight saving time (both folds, gaps), local mean times, far offsets, single microseconds and
every special year; places, elevations and atmospheres that lie between and beyond those of domains.py.  Cases are plain: the eighth field of an instant is an offset or the name of a zone, the ninth the fold."""
import datetime

from . import domains as D, zones

US = datetime.timedelta(microseconds=1)


def write(u, how):
    """case for the naive UTC instant u written in zone `how`"""
    d = zones.write(u, how)
    return [d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond, how] + ([d.fold] if d.fold else [])


def instants(n=None):
    """all corner instants, or n of them spread over the list"""
    res = []
    dt = datetime.datetime
    # around the transitions of every zone, both folds and the gap
    for z, moments in dict(berlin=[dt(1972, 3, 26, 1), dt(2012, 10, 28, 1), dt(2021, 3, 28, 1), dt(2035, 10, 28, 1), dt(1991, 9, 29, 1)], santiago=[dt(1987, 3, 29, 3), dt(2030, 9, 29, 4)],
                           lordhowe=[dt(2016, 3, 27, 15), dt(2016, 9, 25, 15)], apia=[dt(2011, 12, 30, 10)], lmt=[dt(1911, 3, 10, 23), dt(1899, 12, 31, 23, 55)], monrovia=[dt(1972, 1, 7), dt(1960, 2, 29, 0, 44, 29)],
                           kathmandu=[dt(2016, 12, 31, 18, 15), dt(1582, 10, 15, 12)]).items():
        for u in moments:
            for s in (-7200, -3599, -900, -1, 0, 1, 1799, 3601, 5400):
                res.append(write(u + datetime.timedelta(seconds=s, microseconds=(s * 7919) % 1000000 if s % 900 else 0), z))
    # repeated hours that belong to two UTC months
    for y, m in ((1950, 1), (1972, 7), (1973, 1), (1973, 3), (1990, 1), (1997, 7), (2000, 3), (2006, 1), (2012, 7), (2014, 3), (2014, 5), (2017, 1), (2026, 7), (2100, 3), (1600, 11), (4000, 1)):
        for s in (-3600, -1800, -1, 0, 1, 2700, 3599):
            res.append(write(dt(y, m, 1) + datetime.timedelta(seconds=s, microseconds=(0, 999999, 1)[s % 3]), "monthly"))
    for y, m, d, h in ((2021, 3, 28, 2), (2016, 3, 27, 2), (1972, 3, 26, 2)):       # local times that the clocks leap over
        res += [[y, m, d, h, 30, 0, 0, "berlin", f] for f in (0, 1)]
    # summer and winter of every zone, in the years of both tables and beyond
    for i, y in enumerate((1750, 1850, 1905, 1955, 1972, 1973, 1988, 2004, 2012, 2013, 2020, 2026, 2033, 2037, 2060, 2150, 2400, 5000)):
        for j, z in enumerate(zones.ZONES):
            res.append(write(dt(y, 1 + (6 if (i + j) % 2 else 0), 1 + (i * 5 + j) % 28, (7 * i + 5 * j) % 24, (11 * i + j) % 60, (13 * i) % 60, (0, 1, 999999, 123456)[(i + j) % 4]), z))
    # every special year with a far offset and a single microsecond
    offs = [43201, 46800, 50400, -43200, 63003, -64803, 86399, -86399, 20700, 561, -2670, -1, 1]
    for i, y in enumerate(D.ALL_YEARS):
        for j, (m, d, h, mi, s, us) in enumerate(((1, 2, 0, 0, 0, 1), (12, 30, 23, 59, 59, 999999), (2, 28, 12, 30, 30, 500000), (2, 29, 23, 0, 59, 1), (10, 10, 5, 59, 0, 999999))):
            if d > D.mlen(y, m) or y in (1, 9999) and j != 2 or (i + j) % 2:
                continue
            res.append(D.from_dt(dt(y, m, d, h, mi, s, us), offs[(i * 3 + j) % len(offs)]))
    res += [D.W(2016, 12, 31, 18, 59, 59, 999999, -18000), D.W(2017, 1, 1, 14, 0, 0, 0, 50400), D.W(9999, 12, 30, 23, 59, 59, 999999), D.W(1, 1, 2, 0, 0, 0, 1)]
    return D.stride(res, n) if n else res


PLACES = [(45.5, 360.0), (-45.7, -180.0), (89.95, 175.5), (-89.97, -359.5), (1e-5, 1e-5), (-1e-4, -1e-4), (23.44, 180.0), (-66.56, 90.0), (66.7, -90.0), (5.0, 540.0), (-33.87, -200.0), (52.52, 13.4), (64.13, -21.9),
          (-54.8, 291.7), (19.43, 1080.0), (-13.83, -171.77), (90.0, 12.0), (-90.0, -171.0), (71.2, 719.5), (10, -75), (-7.25, 112.75), (36.0, 174.99)]
ELEVS = [0, 1e-4, 9500.0, 25000.0, -420.0, 350, 4321.0, -5.5]
ATMOS = [(288.15, 101325.0), (150.0, 101300.5), (355.5, 121500.0), (233.0, 0.5), (272.9, 999.5), (313.3, 106000.0), (120.0, 50000.25), (400, 90000)]


def positions(n=None):
    """[when, lat, lon, elevation, temperature, pressure, backend]"""
    res = []
    for i, w in enumerate(instants()):
        la, lo = PLACES[i * 5 % len(PLACES)]
        res.append([w, la, lo, ELEVS[i * 3 % len(ELEVS)], *ATMOS[i % len(ATMOS)], ["math", "numpy"][i // 3 % 2]])
    for i, ((la, lo), el) in enumerate(D.product(PLACES, ELEVS)):
        res.append([D.W(2019, 1 + i % 12, 1 + i % 28, i % 24, i % 60, i * 7 % 60, i * 7919 % 1000000, D.OFFSETS[i % len(D.OFFSETS)]), la, lo, el, *ATMOS[i // 3 % len(ATMOS)], ["math", "numpy"][i % 2]])
    return D.stride(res, n) if n else res
