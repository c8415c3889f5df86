"""Every stage function of the published algorithm is executed on a dense grid of its own argument space (epochs from year
1 to 6000, angles over their full ranges, both numeric backends) and compared with the reference model of that one stage
(mc/ref/spa.py, an independent transcription of NREL/TP-560-34302).  The three recorded deviations are recognised by
their own formula only."""
import numpy as np

from .. import domains as D
from ..core import Space, Outcome
from ..ref import spa
from .. import api

PROP = "C02"
s = api.solar


def grid(lo, hi, n):
    return [lo + (hi - lo) * i / (n - 1) for i in range(n)]


def cols(cases):
    return [np.array(c, float) for c in zip(*cases)]


def nut(psi, eps):
    return {"longitude": psi, "obliquity": eps}


class Stage:
    """name; axes -> argument tuples; impl(*args) -> number; ref(*columns, quirks) -> array"""

    def __init__(self, name, args, impl, ref, angle=False, tol=1e-8, quirk=None):
        self.name, self.args, self.impl, self.ref = name, args, impl, ref
        self.angle, self.tol, self.quirk = angle, tol, quirk

    def check(self, cases):
        out = Outcome()
        with np.errstate(all="ignore"):
            args = cols([c[1:] for c in cases])
            want = np.broadcast_to(self.ref(*args, quirks=()), (len(cases),))
            asis = np.broadcast_to(self.ref(*args, quirks=(self.quirk,)), (len(cases),)) if self.quirk else None
        cur = None
        for i, c in enumerate(cases):
            if c[0] != cur:
                api.backend(c[0])
                cur = c[0]
            r = api.outcome(self.impl, *c[1:])
            out.call()
            if r[0] != "ok":
                out.fail(c, "%s raised %s: %s" % (self.name, r[1], r[2]))
            elif self.near(float(r[1]), float(want[i])):
                out.ok()
            elif asis is not None and self.near(float(r[1]), float(asis[i])):
                out.fail(c, "%s = %.9f, published %.9f" % (self.name, r[1], want[i]), known=self.quirk)
                out.ok()
            else:
                out.fail(c, "%s = %.12g, published algorithm %.12g" % (self.name, float(r[1]), want[i]))
        return out

    def near(self, a, b):
        if a != a:
            return False
        dd = abs(D.angle_diff(a, b)) if self.angle else abs(a - b)
        return dd <= self.tol * max(1.0, 0.0 if self.angle else abs(b) * 1e-2)


def stages(th):
    n = 6 if th else 1
    jme = sorted(set(grid(-2.0, 4.0, 1501 * n) + grid(-0.06, 0.06, 601 * n) + [0.0, 1e-9, -1e-9, 0.003765, 1.0, -1.0]))
    jce = [10 * x for x in jme]
    jd = sorted({2451545.0 + 365250.0 * x + f for x in grid(-2, 4, 301 * n) for f in (0, 0.1, 0.25, 0.5, 0.75, 0.9)} |
                {2451545.0 + k + f for k in range(-60, 60) for f in (0.0, 0.5, 0.31284722)} | {2452930.312847222})
    ang = grid(0.0, 360.0, 73) + [1e-9, 89.999999, 90.000001, 179.999999, 180.000001, 269.9999, 359.999999, 0.26667]
    lat = D.LATS + [s * (90 - x) for x in (0.05, 5e-3, 1e-4, 5e-5, 2e-6, 1e-10) for s in (1, -1)]
    elev = D.ELEVS + [2e4, 3.5e4, 1e5, 4e5, 1e6, -6000.0, -1e-3]
    eps = [22.5, 23.0, 23.439291, 23.4404, 24.0, 24.3]
    beta = [-0.0004, -0.0001011, 0.0, 1e-9, 0.0001, 0.00035]
    HNEG = [-0.0024, -1e-9, -12.5, -179.5, -181.25, -270.0, -359.5, 360.0, 361.5]
    dec = grid(-24.3, 24.3, 37) + [0.0, 1e-9, -9.314, 23.4392]
    H = grid(0.0, 359.9, 37) + [0.0, 90.0, 180.0, 270.0, 11.105902, 359.999999] + HNEG
    R = grid(0.98, 1.02, 401 * n) + [1.0, 0.9965422974, 0.9833, 1.0167]
    xi = [8.794 / 3600 * x for x in (0.98, 0.9965, 1.0, 1.0167, 1.02)] + [0.0024, 0.00245]
    press = D.PRESS
    temp = D.TEMPS
    elv = grid(-90, 90, 361) + [-0.8333, -0.8334, -0.5, 0.0, 0.001, 0.5, 1.0, 89.999, -5.11, -5.1]
    psi = [-0.0053, -0.00399840430333, 0.0, 1e-7, 0.002, 0.0053]
    P = D.product
    q = lambda f: (lambda *a, quirks: f(*a))  # noqa: E731 - stage without recorded deviation
    L = [
        Stage("get_heliocentric_longitude", P(jme), s.get_heliocentric_longitude, q(spa.helio_longitude), True),
        Stage("get_heliocentric_latitude", P(jme), s.get_heliocentric_latitude, q(spa.helio_latitude), tol=1e-10),
        Stage("get_geocentric_longitude", P(jme), s.get_geocentric_longitude, q(spa.geo_longitude), True),
        Stage("get_geocentric_latitude", P(jme), s.get_geocentric_latitude, q(spa.geo_latitude), tol=1e-10),
        Stage("get_sun_earth_distance", P(jme), s.get_sun_earth_distance, q(spa.radius), tol=1e-10),
        Stage("get_nutation.longitude", P(jce), lambda t: s.get_nutation(t)["longitude"], q(lambda t: spa.nutation(t)[0]),
              tol=2e-11),
        Stage("get_nutation.obliquity", P(jce), lambda t: s.get_nutation(t)["obliquity"], q(lambda t: spa.nutation(t)[1]),
              tol=2e-11),
        Stage("get_true_ecliptic_obliquity", P(jme[::3], [-0.0026, 0.0, 0.001666, 0.0026]),
              lambda t, e: s.get_true_ecliptic_obliquity(t, nut(0.001, e)), q(spa.obliquity), tol=1e-9),
        Stage("get_aberration_correction", P(R), s.get_aberration_correction, q(spa.aberration), tol=1e-11),
        Stage("get_mean_sidereal_time", P(jd), s.get_mean_sidereal_time, lambda j, quirks: spa.mean_sidereal(j), True, 1e-6),
        Stage("get_apparent_sidereal_time", P(jd[::7], [-2.0, -0.5, 0.0, 0.0038, 1.0, 4.0], psi, [-0.0026, 0.001666]),
              lambda j, m, p, e: s.get_apparent_sidereal_time(j, m, nut(p, e)),
              lambda j, m, p, e, quirks: spa.apparent_sidereal(spa.mean_sidereal(j), p, spa.obliquity(m, e), quirks),
              True, 1e-6, "eqeq_degrees"),
        Stage("get_apparent_sun_longitude", P(ang, psi, [-0.0058, -0.005711, -0.0055]),
              lambda a, p, b: s.get_apparent_sun_longitude(a, nut(p, 0.5), b), q(lambda a, p, b: a + p + b), True, 1e-10),
        Stage("get_geocentric_sun_right_ascension", P(ang, eps, beta), s.get_geocentric_sun_right_ascension,
              q(spa.right_ascension), True, 1e-10),
        Stage("get_geocentric_sun_declination", P(ang, eps, beta), s.get_geocentric_sun_declination, q(spa.declination),
              tol=1e-10),
        Stage("get_local_hour_angle", P(grid(0, 359.99, 25), D.WIDE_LONS, grid(0, 359.99, 19)), s.get_local_hour_angle,
              q(lambda a, l, r: (a + l - r) % 360), True, 1e-10),
        Stage("get_equatorial_horizontal_parallax", P(R), s.get_equatorial_horizontal_parallax,
              lambda r, quirks: spa.parallax(r, quirks), tol=1e-11, quirk="parallax_inverted"),
        Stage("get_flattened_latitude", P(sorted(set(lat + grid(-90, 90, 181)))), s.get_flattened_latitude,
              q(lambda la: np.degrees(np.arctan(0.99664719 * np.tan(np.radians(la))))), tol=1e-9),
        Stage("get_projected_radial_distance", P(elev, lat), s.get_projected_radial_distance,
              q(lambda e, la: spa.observer(la, e)[0]), tol=1e-12),
        Stage("get_projected_axial_distance", P(elev, lat), s.get_projected_axial_distance,
              q(lambda e, la: spa.observer(la, e)[1]), tol=1e-12),
        Stage("get_parallax_sun_right_ascension", P([0.0, 0.2, 0.7702006, 1.0, 1.0014], xi, H, dec[::3]),
              s.get_parallax_sun_right_ascension, q(spa.delta_alpha), tol=1e-11),
        Stage("get_topocentric_local_hour_angle", P(H, [-0.0024, -0.00036, 0.0, 0.0024]), s.get_topocentric_local_hour_angle,
              q(lambda h, a: h - a), True, 1e-10),
        Stage("get_topocentric_sun_right_ascension", P([0.0, 0.7702006, 1.0], xi[::2], H[::6], ang[::6], eps[::2], beta[::2]),
              s.get_topocentric_sun_right_ascension,
              q(lambda x, k, h, l, e, b: spa.right_ascension(l, e, b) + spa.delta_alpha(x, k, h, spa.declination(l, e, b))),
              True, 1e-10),
        Stage("get_topocentric_elevation_angle", P(lat, dec, H[::2] + HNEG), s.get_topocentric_elevation_angle,
              q(spa.elevation_angle), tol=2e-6),
        Stage("get_topocentric_azimuth_angle", P(H + HNEG, [x for x in lat if abs(x) < 89.9999], dec[::2]),
              s.get_topocentric_azimuth_angle, q(spa.azimuth_angle), True, 1e-8),
        Stage("get_refraction_correction", P(press, temp[::3], [e for e in elv if abs(e + 0.83337) > 1e-9]),
              s.get_refraction_correction, q(spa.refraction), tol=1e-9),
        Stage("get_topocentric_zenith_angle", P(lat[::5], dec[::6], H[::4] + HNEG, [0.0, 82000.0, 101325.0], [230.0, 284.15]),
              s.get_topocentric_zenith_angle,
              q(lambda la, de, h, p, t: 90 - spa.elevation_angle(la, de, h) -
                spa.refraction(p, t, spa.elevation_angle(la, de, h))), tol=3e-6),
    ]
    # topocentric declination: the recorded deviation uses y in place of x; keep x and y consistent with a latitude
    tdec = P(dec[::2], lat[::4], [0.0, 1830.14, 9000.0], xi[::3], H[::3])
    L.append(Stage(
        "get_topocentric_sun_declination", tdec,
        lambda de, la, el, k, h: s.get_topocentric_sun_declination(
            de, float(spa.observer(la, el)[1]), k,
            float(spa.delta_alpha(spa.observer(la, el)[0], k, h, de)), h),
        lambda de, la, el, k, h, quirks: spa.topo_declination(
            de, *spa.observer(la, el), k, spa.delta_alpha(spa.observer(la, el)[0], k, h, de), h, quirks),
        tol=1e-9, quirk="dec_parallax_axial"))
    return L


def polynomials(cases):
    """the published fundamental arguments of the moon, by their public names"""
    names = ["MeanElongationOfMoon", "MeanAnomalyOfSun", "MeanAnomalyOfMoon", "ArgumentOfLatitudeOfMoon",
             "LongitudeOfAscendingNode"]
    from ..ref import spa_tables as T
    out = Outcome()
    for t in cases:
        got = api.constants.get_aberration_coeffs()
        for name, (a, b, c, dd) in zip(names, T.X):
            want = a + b * t + c * t ** 2 + t ** 3 / dd
            out.call()
            if not abs(got[name](t) - want) <= 1e-9 * max(1, abs(want)):
                out.fail(t, "%s(%r) = %r, published %r" % (name, t, got[name](t), want))
            else:
                out.ok()
    return out


def spaces(tier):
    th = tier == "thorough"
    res = []
    for st in stages(th):
        cases = [[b] + a for b in api.BACKENDS for a in st.args]
        res.append(Space(st.name, cases, st.check, chunk=1000))
    res.append(Space("fundamental-arguments", grid(-20, 40, 601), polynomials, chunk=200))
    return res
