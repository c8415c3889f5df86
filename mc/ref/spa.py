"""Reference model: the NREL Solar Position Algorithm, vectorised with numpy, written from the report.

Deliberately boring, one function per equation of NREL/TP-560-34302, nothing imported from pysolar.
All angles are in degrees at the interfaces.  `quirks` is the set of named deviations from the report
that the pinned pysolar is known to have (see known_findings.txt); the empty set is the published algorithm.
"""
import numpy as np
from . import spa_tables as T

QUIRKS = ("eqeq_degrees", "parallax_inverted", "sidereal_cubic", "dec_parallax_axial")

_L = [np.array(t, float) for t in T.L]
_B = [np.array(t, float) for t in T.B]
_R = [np.array(t, float) for t in T.R]
_Y = np.array(T.Y, float)
_PE = np.array(T.PE, float)
_X = T.X
r = np.radians
d = np.degrees


def _series(tables, jme):
    jme = np.asarray(jme, float)
    tot = np.zeros(jme.shape)
    for k, tab in enumerate(tables):
        s = (tab[:, 0] * np.cos(tab[:, 1] + tab[:, 2] * jme[..., None])).sum(-1)
        tot = tot + s * jme ** k
    return tot / 1e8


def helio_longitude(jme): return d(_series(_L, jme)) % 360
def helio_latitude(jme): return d(_series(_B, jme))
def radius(jme): return _series(_R, jme)
def geo_longitude(jme): return (helio_longitude(jme) + 180.0) % 360
def geo_latitude(jme): return -helio_latitude(jme)


def nutation(jce):
    jce = np.asarray(jce, float)
    x = np.stack([a + b * jce + c * jce ** 2 + jce ** 3 / dd for a, b, c, dd in _X], -1)
    arg = r((x[..., None, :] * _Y).sum(-1))
    psi = ((_PE[:, 0] + _PE[:, 1] * jce[..., None]) * np.sin(arg)).sum(-1) / 36e6
    eps = ((_PE[:, 2] + _PE[:, 3] * jce[..., None]) * np.cos(arg)).sum(-1) / 36e6
    return psi, eps


def obliquity(jme, deps):
    u = np.asarray(jme, float) / 10
    c = [84381.448, -4680.93, -1.55, 1999.25, -51.38, -249.67, -39.05, 7.12, 27.87, 5.79, 2.45]
    e0 = sum(k * u ** n for n, k in enumerate(c))
    return e0 / 3600 + deps


def aberration(R): return -20.4898 / (3600 * np.asarray(R, float))


def mean_sidereal(jd, quirks=()):
    jd = np.asarray(jd, float)
    jc = (jd - 2451545) / 36525
    if "sidereal_cubic" in quirks:
        tail = 0.000387933 * jc ** 2 * (1 - jc / 38710000)
    else:
        tail = jc ** 2 * (0.000387933 - jc / 38710000)
    return (280.46061837 + 360.98564736629 * (jd - 2451545) + tail) % 360


def apparent_sidereal(nu0, dpsi, eps, quirks=()):
    return nu0 + dpsi * np.cos(eps if "eqeq_degrees" in quirks else r(eps))


def right_ascension(lam, eps, beta):
    lam, eps, beta = r(lam), r(eps), r(beta)
    return d(np.arctan2(np.sin(lam) * np.cos(eps) - np.tan(beta) * np.sin(eps), np.cos(lam))) % 360


def declination(lam, eps, beta):
    lam, eps, beta = r(lam), r(eps), r(beta)
    return d(np.arcsin(np.sin(beta) * np.cos(eps) + np.cos(beta) * np.sin(eps) * np.sin(lam)))


def parallax(R, quirks=()):
    R = np.asarray(R, float)
    return 8.794 * R / 3600 if "parallax_inverted" in quirks else 8.794 / (3600 * R)


def observer(lat, elev):
    phi = r(np.asarray(lat, float))
    u = np.arctan(0.99664719 * np.tan(phi))
    x = np.cos(u) + elev * np.cos(phi) / 6378140.0
    y = 0.99664719 * np.sin(u) + elev * np.sin(phi) / 6378140.0
    return x, y


def delta_alpha(x, xi, H, dec):
    xi, H, dec = r(xi), r(H), r(dec)
    return d(np.arctan2(-x * np.sin(xi) * np.sin(H), np.cos(dec) - x * np.sin(xi) * np.cos(H)))


def topo_declination(dec, x, y, xi, dalpha, H, quirks=()):
    dec, xi, da, H = r(dec), r(xi), r(dalpha), r(H)
    k = y if "dec_parallax_axial" in quirks else x
    return d(np.arctan2((np.sin(dec) - y * np.sin(xi)) * np.cos(da), np.cos(dec) - k * np.sin(xi) * np.cos(H)))


def elevation_angle(lat, dec, H):
    lat, dec, H = r(lat), r(dec), r(H)
    return d(np.arcsin(np.clip(np.sin(lat) * np.sin(dec) + np.cos(lat) * np.cos(dec) * np.cos(H), -1, 1)))


def azimuth_angle(H, lat, dec):
    lat, dec, H = r(lat), r(dec), r(H)
    return (180 + d(np.arctan2(np.sin(H), np.cos(H) * np.sin(lat) - np.tan(dec) * np.cos(lat)))) % 360


def refraction(p, t, e):
    """pressure in Pa, temperature in K; zero when the sun's upper limb is below the horizon"""
    e = np.asarray(e, float)
    up = e >= -(0.26667 + 0.5667)
    ee = np.where(up, e, 0.0)
    v = (p / 100 / 1010.0) * (283.0 / t) * 1.02 / (60 * np.tan(r(ee + 10.3 / (ee + 5.11))))
    return np.where(up, v, 0.0)


def time_part(jd, jde, quirks=()):
    """everything that depends on time only: dict(R, nu, alpha, dec, xi, ...)"""
    jde = np.asarray(jde, float)
    jce = (jde - 2451545) / 36525
    jme = jce / 10
    R = radius(jme)
    dpsi, deps = nutation(jce)
    eps = obliquity(jme, deps)
    lam = geo_longitude(jme) + dpsi + aberration(R)
    beta = geo_latitude(jme)
    return dict(R=R, dpsi=dpsi, deps=deps, eps=eps, lam=lam, beta=beta,
                nu=apparent_sidereal(mean_sidereal(jd, quirks), dpsi, eps, quirks),
                alpha=right_ascension(lam, eps, beta), dec=declination(lam, eps, beta), xi=parallax(R, quirks))


def place_part(tp, lat, lon, elev=0.0, quirks=()):
    """topocentric (declination, hour angle in [0, 360)+-parallax)"""
    H = (tp["nu"] + lon - tp["alpha"]) % 360
    x, y = observer(lat, elev)
    da = delta_alpha(x, tp["xi"], H, tp["dec"])
    dp = topo_declination(tp["dec"], x, y, tp["xi"], da, H, quirks)
    return dp, H - da


def position(jd, jde, lat, lon, elev=0.0, p=101325.0, t=288.15, quirks=()):
    """(azimuth, true elevation angle, apparent altitude)"""
    tp = time_part(jd, jde, quirks)
    dp, Hp = place_part(tp, lat, lon, elev, quirks)
    e0 = elevation_angle(lat, dp, Hp)
    return azimuth_angle(Hp, lat, dp), e0, e0 + refraction(p, t, e0)


def unit(az, alt):
    az, alt = r(np.asarray(az, float)), r(np.asarray(alt, float))
    return np.stack([np.cos(alt) * np.sin(az), np.cos(alt) * np.cos(az), np.sin(alt) + 0 * az], -1)


def separation(az1, alt1, az2, alt2):
    """angle in degrees between two directions, accurate for tiny angles"""
    a, b = unit(az1, alt1), unit(az2, alt2)
    return d(2 * np.arcsin(np.clip(np.linalg.norm(a - b, axis=-1) / 2, 0, 1)))
