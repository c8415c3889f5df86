"""Every public scalar function with finite alphabets for its arguments (datetimes written as cases of domains.W)."""
from . import domains as D, api

GRID_T = D.instants_boundaries([1, 1600, 1900, 1969, 1972, 2000, 2014, 2016, 2038, 2100, 9998], [(7, 12, 45, 678901)])[::3] + \
    [D.W(2016, 12, 19, 23, m, 59, 999999) for m in range(0, 60, 7)] + [D.W(2003, 10, 17, h, 30, 30, 0, -25200) for h in range(24)] + \
    [D.W(2004, 2, 29, 23, 59, 59, 0, o) for o in (0, 1, -1, 3600, -43200)]
WHEN0 = D.W(2010, 8, 13, 15, 20, 3, 250000)
ANG = [0.0, 1e-9, 10.0, 45.0, 89.9, 90.0, 123.4, 180.0, 200.0, 270.0, 359.9]
ALT = [45.0, 0.0, 1e-6, 0.01, 0.1, 0.5, 1.0, 2.0, 5.0, 10.0, 15.5, 20.0, 30.0, 60.0, 75.0, 85.0, 89.0, 89.9, 90.0, 10, 45, 90]
ALT_ANY = ALT + [-1e-9, -0.01, -0.1, -0.5, -1.0, -5.11, -10.0, -45.0, -89.9, -90.0, -10]
DAYS = [81, 1, 2, 31, 59, 60, 61, 80, 82, 94, 100, 172, 200, 265, 275, 300, 364, 365, 366]
BAND = ["high-frequency", "low-frequency"]
MBAR = [1013.25, 300.0, 500.0, 800.0, 1000.0, 1100.0]
AXES = dict(latitude_deg=[42.2] + D.LATS, longitude_deg=[-71.4] + D.WIDE_LONS, when=[WHEN0] + GRID_T, elevation=[0.0] + D.ELEVS,
            temperature=[288.15] + D.TEMPS, pressure=[101325.0] + D.PRESS, altitude_deg=[30.0] + ALT_ANY, ghi_data=[500.0, 0.0, 1.0, 1000, 1367.5],
            SC=[1367.0, 1361.0, 0.0, 1], TY=[365, 366, 365.25, 360], AM=[2.0, 1.0, 1.5, 10.0, 0.0], TL=[1.0, 2.0, 3.5, 0.01, 7.0, 0.0])
JME = [0.003765, -2.0, -1.0, -0.1, -0.001, 0.0, 0.01, 0.1, 1.0, 4.0]
NUT = [[-0.00399840430333, 0.00166656817724], [0.0, 0.0], [0.0053, -0.0026]]
# name -> list of axes; a nutation is written as ["nut", psi, eps]
STAGES = {
    "solar.equation_of_time": [DAYS], "solar.get_declination": [DAYS], "solar.get_aberration_correction": [[1.0, 0.983, 0.9965, 1.0167]],
    "solar.get_apparent_sidereal_time": [[2452930.312847, 2451545.0, 1721500.25, 3900000.5], JME, [["nut"] + x for x in NUT]],
    "solar.get_apparent_sun_longitude": [ANG, [["nut"] + x for x in NUT], [-0.0057, -0.0055]],
    "solar.get_equatorial_horizontal_parallax": [[1.0, 0.983, 0.9965, 1.0167]], "solar.get_flattened_latitude": [D.LATS],
    "solar.get_geocentric_latitude": [JME], "solar.get_geocentric_longitude": [JME], "solar.get_heliocentric_latitude": [JME],
    "solar.get_heliocentric_longitude": [JME], "solar.get_sun_earth_distance": [JME], "solar.get_nutation": [[10 * x for x in JME]],
    "solar.get_geocentric_sun_declination": [ANG, [23.4, 22.5, 24.2], [-0.0001, 0.0, 0.0003]],
    "solar.get_geocentric_sun_right_ascension": [ANG, [23.4, 22.5, 24.2], [-0.0001, 0.0, 0.0003]],
    "solar.get_incidence_angle": [[60.0, 0.0, 1e-6, 30.0, 89.9, 90.0, 120.0, 180.0], [30.0, 0.0, 1e-6, 60.0, 89.9, 90.0, 135.0, 180.0],
                                  [0.0, -10.0, 45.0, 90.0, 180.0, -179.0, 300.0], [180.0, 0.0, 90.0, 190.0, 359.9, 30.0]],
    "solar.get_local_hour_angle": [ANG, D.WIDE_LONS, ANG], "solar.get_mean_sidereal_time": [[2452930.312847, 2451545.0, 1721500.25, 3900000.5]],
    "solar.get_parallax_sun_right_ascension": [[0.77, 0.0, 1.0], [0.00244, 0.0025], ANG, [-9.3, 23.4, 0.0]],
    "solar.get_projected_radial_distance": [D.ELEVS, D.LATS], "solar.get_projected_axial_distance": [D.ELEVS, D.LATS],
    "solar.get_refraction_correction": [D.PRESS, D.TEMPS, ALT_ANY + [-0.8333, -0.8334, -5.11]],
    "solar.get_topocentric_azimuth_angle": [ANG, D.LATS, [-9.3, 23.4, 0.0]], "solar.get_topocentric_elevation_angle": [D.LATS, [-9.3, 23.4, 0.0], ANG],
    "solar.get_topocentric_local_hour_angle": [ANG, [-0.00036, 0.002]],
    "solar.get_topocentric_sun_declination": [[-9.3, 23.4, 0.0], [0.63, 0.0, -0.99], [0.00244, 0.0025], [-0.00036, 0.0, 0.002], ANG],
    "solar.get_topocentric_sun_right_ascension": [[0.77, 0.0, 1.0], [0.00244, 0.0025], ANG, ANG, [23.4, 22.5], [-0.0001, 0.0003]],
    "solar.get_topocentric_zenith_angle": [D.LATS, [-9.3, 23.4, 0.0], ANG, D.PRESS, D.TEMPS],
    "solar.get_true_ecliptic_obliquity": [JME, [["nut"] + x for x in NUT]],
    "solartime.get_julian_century": [[2452930.3, 2451545.0, 1721500.25]], "solartime.get_julian_ephemeris_century": [[2452930.3, 2451545.0]],
    "solartime.get_julian_ephemeris_millennium": [[0.0379, -20.0, 0.0, 40.0]],
    "radiation.get_air_mass_ratio": [ALT_ANY], "radiation.get_apparent_extraterrestrial_flux": [DAYS], "radiation.get_optical_depth": [DAYS],
    "util.diffuse_transmittance": [AXES["TL"]], "util.diffuse_ratio": [[100.0, 0.0, 1, 999.5], [500.0, 1.0, 1000]],
    "elevation.get_pressure_with_elevation": [[1000.0, 0.0, -430.0, 11000.0, 8848.0, 12000.0, 500], [101325.0, 90000.0], [288.15, 250.0], [-0.0065, -0.005, 0.003],
                                              [0.0, 500.0], [8.31432], [9.80665], [0.0289644]],
    "elevation.get_temperature_with_elevation": [[1000.0, 0.0, -430.0, 11000.0], [288.15, 300.0], [-0.0065, 0.003]],
    "rest.get_aerosol_forward_scatterance_factor": [ALT], "rest.get_aerosol_optical_depth": [[0.1, 0.0, 0.6], [0.5, 0.69, 1.1], [1.3, 1.0, 1.6]],
    "rest.get_aerosol_scattering_correction_factor": [BAND, [1.0, 2.0, 10.0, 30.0], [0.1, 0.0, 0.6]],
    "rest.get_aerosol_transmittance": [BAND, [1.0, 2.0, 30.0], [0.1, 0.0, 0.6]], "rest.get_aerosol_scattering_transmittance": [BAND, [1.0, 2.0, 30.0], [0.1, 0.0, 0.6]],
    "rest.get_backscattered_diffuse_irradiance_by_band": [BAND, [400.0, 0.0], [100.0, 0.0], [1.3, 1.0], [0.1, 0.6]],
    "rest.get_beam_broadband_irradiance": [ALT, MBAR, [0.35, 0.2, 0.5], [0.0002, 0.001], [1.5, 0.0, 5.0], [1.3, 1.0, 1.6], [0.1, 0.0, 0.6]],
    "rest.get_beam_irradiance_by_band": [BAND, ALT, MBAR, [0.35, 0.2], [0.0002], [1.5, 5.0], [1.3, 1.6], [0.1, 0.0, 0.6]],
    "rest.get_broadband_direct_normal_irradiance": [ALT, MBAR, [0.35, 0.2, 0.5], [0.0002, 0.001], [1.5, 0.0, 5.0], [1.3, 1.0, 1.6], [0.1, 0.0, 0.6]],
    "rest.get_direct_normal_irradiance_by_band": [BAND, ALT, MBAR, [0.35, 0.2], [0.0002], [1.5, 5.0], [1.3, 1.6], [0.1, 0.0, 0.6]],
    "rest.get_effective_aerosol_wavelength": [BAND, [1.0, 2.0, 10.0, 30.0], [1.3, 1.0, 1.6], [0.1, 0.0, 0.6]],
    "rest.get_gas_transmittance": [BAND, [1.0, 2.0, 10.0, 30.0]], "rest.get_ground_albedo": [BAND],
    "rest.get_nitrogen_transmittance": [BAND, [1.0, 2.0, 10.0, 30.0], [0.0002, 0.0, 0.001]],
    "rest.get_optical_mass_rayleigh": [ALT, MBAR], "rest.get_optical_mass_ozone": [ALT], "rest.get_optical_mass_water": [ALT], "rest.get_optical_mass_aerosol": [ALT],
    "rest.get_ozone_transmittance": [BAND, [1.0, 2.0, 10.0], [0.35, 0.2, 0.5]], "rest.get_rayleigh_extinction_forward_scattering_fraction": [BAND, [1.0, 5.0, 30.0]],
    "rest.get_rayleigh_transmittance": [BAND, [1.0, 5.0, 30.0]], "rest.get_sky_albedo": [BAND, [1.3, 1.0, 1.6], [0.1, 0.0, 0.6]],
    "rest.get_water_vapor_transmittance": [BAND, [1.0, 5.0, 30.0], [1.5, 0.0, 5.0]],
    "rest.get_water_vapor_transmittance_coefficients": [BAND, [1.5, 0.0, 5.0, 2]],
    "solar.get_coeff": [JME, [[[[175347046.0, 0.0, 0.0], [3341656.0, 4.6692568, 6283.07585]], [[628331966747.0, 0, 0]], [[52919, 0, 0], [8720, 1.0721, 6283.0758]]], [[[7.0, 1.0, 2.0]]], [], [[], [[5, 0, 0]]]]],
}
ALL = {n: [AXES[p] for p in ps] for n, ps in api.TIMED.items()}
ALL.update(STAGES)
DATED = {n: ps.index("when") for n, ps in api.TIMED.items()}


def arguments(name, args):
    """case -> real arguments"""
    res = []
    for i, a in enumerate(args):
        if i == DATED.get(name):
            a = D.dt(a)
        elif isinstance(a, list) and a and a[0] == "nut":
            a = {"longitude": a[1], "obliquity": a[2]}
        res.append(a)
    return res


def cases(name, nmixed):
    ax = ALL[name]
    base = [a[0] for a in ax]
    res = D.star(base, ax)
    size = 1
    for a in ax:
        size *= len(a)
    res += D.product(*ax) if size <= nmixed else D.interleaved(nmixed, *ax)
    seen, uniq = set(), []
    for c in res:
        k = repr(c)
        if k not in seen:
            seen.add(k)
            uniq.append(c)
    return uniq


def some(name, n, nmixed=20):
    """at most n of the cases, spread evenly over all the axes, the base case first"""
    cs = cases(name, nmixed)
    return cs if len(cs) <= n else [cs[0]] + D.stride(cs[1:], n - 1) if n > 2 else cs[:n]
