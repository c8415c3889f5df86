"""Second, much simpler reference: the low-precision solar coordinates of the Astronomical Almanac
(accuracy about 0.01 deg between 1950 and 2050).  Shares nothing with the SPA code in spa.py."""
import numpy as np


def position(jd_ut, lat, lon):
    """(azimuth, airless altitude) in degrees, with a mean horizontal parallax"""
    n = np.asarray(jd_ut, float) - 2451545.0
    L = 280.460 + 0.9856474 * n
    g = np.radians(357.528 + 0.9856003 * n)
    lam = np.radians(L + 1.915 * np.sin(g) + 0.020 * np.sin(2 * g))
    eps = np.radians(23.439 - 0.0000004 * n)
    ra = np.degrees(np.arctan2(np.cos(eps) * np.sin(lam), np.cos(lam)))
    dec = np.arcsin(np.sin(eps) * np.sin(lam))
    gmst = 280.46061837 + 360.98564736629 * n
    H = np.radians(gmst + lon - ra)
    phi = np.radians(lat)
    # rectangular horizon coordinates: east, north, up
    e = -np.cos(dec) * np.sin(H)
    nn = np.sin(dec) * np.cos(phi) - np.cos(dec) * np.cos(H) * np.sin(phi)
    up = np.sin(dec) * np.sin(phi) + np.cos(dec) * np.cos(H) * np.cos(phi)
    alt = np.degrees(np.arctan2(up, np.hypot(e, nn)))
    alt = alt - 8.794 / 3600 * np.cos(np.radians(alt))
    return np.degrees(np.arctan2(e, nn)) % 360, alt
