"""Textbook formulas of the fast functions (Masters, Renewable and Efficient Electric Power Systems), written from the documentation and
evaluated on the UTC calendar fields of an instant."""
from math import pi, sin, cos, radians, degrees, atan2, hypot, exp, inf

from . import timeref


def fields(dt):
    """(UTC day of year, hour, minute)"""
    u = timeref.utc_fields(dt)
    return timeref.day_of_year(u), u.hour, u.minute


def equation_of_time(n):
    b = radians(360.0 / 364.0 * (n - 81))
    return 9.87 * sin(2 * b) - 7.53 * cos(b) - 1.5 * sin(b)


def declination(n, year=365.0):
    return 23.45 * sin(2 * pi * (n - 81) / year)


def solar_time(dt, lon):
    n, h, m = fields(dt)
    return h + (m + 4.0 * lon + equation_of_time(n)) / 60.0


def hour_angle(dt, lon):
    return (solar_time(dt, lon) - 12.0) * 15.0


def direction(dt, lat, lon):
    """(east, north, up) of the sun"""
    n, _, _ = fields(dt)
    d, h, f = radians(declination(n)), radians(hour_angle(dt, lon)), radians(lat)
    return (-cos(d) * sin(h), sin(d) * cos(f) - cos(d) * cos(h) * sin(f), sin(d) * sin(f) + cos(d) * cos(h) * cos(f))


def fast(dt, lat, lon):
    """(azimuth from north clockwise, altitude)"""
    e, n, u = direction(dt, lat, lon)
    return degrees(atan2(e, n)) % 360, degrees(atan2(u, hypot(e, n)))


def flux(n):
    return 1160 + 75 * sin(radians(360.0 / 365.0 * (n - 275)))


def depth(n):
    return 0.174 + 0.035 * sin(radians(360.0 / 365.0 * (n - 100)))


def direct(n, alt):
    if alt <= 0:
        return 0.0
    s = sin(radians(alt))
    return flux(n) * exp(-depth(n) / s) if s > 0 else 0.0


def eccentricity(n):
    t = 2 * pi * (n - 1) / 365
    return 1.00010 + 0.034221 * cos(t) + 0.001280 * sin(t) + 0.000719 * cos(2 * t) + 0.000077 * sin(2 * t)


def earth_sun(n):
    return 1 - 0.0335 * sin(2 * pi * (n - 94) / 365)


def extraterrestrial(dt, lat, lon, sc=1367.0):
    up = direction(dt, lat, lon)[2]
    return sc * up * eccentricity(fields(dt)[0]) if up > 0 else 0.0
