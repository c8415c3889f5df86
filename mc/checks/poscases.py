"""Case families for the precise position: [when, lat, lon, elevation, temperature, pressure, backend]"""
from .. import corners, domains as D

BASES = [
    [D.W(2003, 10, 17, 12, 30, 30, 0, -7 * 3600), 39.742476, -105.1786, 1830.14, 284.15, 82000.0, "math"],
    [D.W(2016, 12, 19, 23, 0), 42.206, -71.382, 0, 288.15, 101325.0, "numpy"],
    [D.W(1987, 6, 21, 4, 20, 7, 123456, 5 * 3600 + 1800), -33.9, 151.2, 58.0, 300.0, 100000.0, "math"],
    [D.W(2031, 3, 20, 17, 59, 59, 999999), 69.65, 18.96, 3000.0, 250.0, 70000.0, "numpy"],
]


def times(th):
    t = D.instants_boundaries(D.YEARS if th else D.stride(D.YEARS, 30), [(0, 0, 0, 0), (12, 30, 30, 0), (23, 59, 59, 999999)]
                              if th else [(7, 12, 45, 678901)])
    t += [D.W(y, m, d, *c) for y in (2012, 2023) for m, d in D.days(y)[::1 if th else 3] for c in D.stride(D.CLOCK, 6 if th else 2)]
    t += [D.W(2004, 2, 29, h, m, (7 * h + m) % 60, (h * 41 + m) * 617) for h in range(24) for m in range(0, 60, 1 if th else 6)]
    t += [D.W(2008, 8, 8, 8, 8, s, 500000) for s in range(60)]
    return t


def families(th):
    T = times(th)
    small_t = D.stride(T, 40 if th else 12)
    res = {}
    star, pairs = [], []
    for b in BASES:
        ax = [T, D.LATS, D.WIDE_LONS, D.ELEVS, D.TEMPS, D.PRESS, ["math", "numpy"]]
        star += D.star(b, ax)
        ax2 = [small_t, D.stride(D.LATS, 15), D.stride(D.WIDE_LONS, 13), D.stride(D.ELEVS, 7), D.stride(D.TEMPS, 6),
               D.stride(D.PRESS, 6), ["math", "numpy"]]
        if th:
            ax2 = [small_t, D.LATS, D.WIDE_LONS, D.ELEVS, D.TEMPS, D.PRESS, ["math", "numpy"]]
        pairs += D.pairs(b, ax2)
    res["axes"] = star
    res["written corners"] = corners.positions()
    res["pairs"] = pairs
    res["mixed"] = D.interleaved(120000 if th else 9000, T, D.LATS, D.WIDE_LONS, D.ELEVS, D.TEMPS, D.PRESS, ["math", "numpy"])
    offs = [[D.from_dt(D.datetime.datetime(y, m, 1, h, 59, 59), o), la, lo, 100.0, 288.15, 101325.0, b]
            for y, m in ((1999, 1), (2000, 3), (2016, 7), (2017, 1)) for h in (0, 11, 23)
            for o in D.OFFSETS for la, lo in ((52.5, 13.4), (-12.0, -77.0)) for b in ("math", "numpy")]
    res["offsets"] = offs
    # far from sea level, where the observer's elevation is most of the parallax
    res["far up and down"] = [[w, la, lo, el, 288.15, 101325.0, b] for w in D.stride(T, 24 if th else 6) for la in (0.0, 33.3, -71.0, 89.5) for lo in (-120.0, 10.0)
                              for el in (-500000.0, -50000.0, -3000.0, 12000.0, 50000.0, 400000, 2000000.0) for b in ("math", "numpy")]
    # every half degree, every whole and odd number of kelvin, hectopascal and hour of the years between and beyond
    fine, lons = [], [x / 2 for x in range(-720, 721)] + [1080.25, -3599.75]
    for i, la in enumerate([x / 2 for x in range(-179, 180)] + [x + 0.123456 for x in range(-90, 90)]):
        fine.append([T[i * 7 % len(T)], la, lons[i * 11 % len(lons)], [0, 12000.0, 333.3, 40000.0, -500.0][i % 5], 180 + i * 0.7, 500.0 + i * 290, ["math", "numpy"][i % 2]])
    for i, lo in enumerate(lons):
        fine.append([T[i * 5 % len(T)], -90 + i * 37 % 1801 / 10, lo, [0, 1e-6, 100, 25000.0][i % 4], 400 - i * 0.15, 150000.0 - i * 100, ["math", "numpy"][i % 2]])
    fine += [[D.W(y, 1 + i % 12, 1 + i * 5 % 28, i % 24, i * 7 % 60, i * 11 % 60, i * 7919 % 1000000, D.OFFSETS[i % len(D.OFFSETS)]), -89.5 + i * 13 % 180, i * 17 % 720 - 360.0, 100.0, 288.15, 101325.0, ["math", "numpy"][i % 2]]
             for i, y in enumerate(range(2, 6000, 1 if th else 7))]
    res["half degrees"] = fine
    # product of time, latitude and longitude on a coarser grid
    res["product"] = [c[:3] + [0, 288.15, 101325.0, "math" if i % 2 else "numpy"] for i, c in enumerate(
        D.product(D.stride(T, 60 if th else 16), D.stride(D.LATS, 24 if th else 13), D.stride(D.WIDE_LONS, 24 if th else 13)))]
    return res
