"""Writes /verif/properties.jsonl (one property per entry of P)."""
import json, os
S = "pysolar/solar.py"; ST = "pysolar/solartime.py"; U = "pysolar/util.py"; R = "pysolar/radiation.py"
N = "pysolar/numeric.py"; TZ = "pysolar/tzinfo_check.py"; SIM = "pysolar/simulate.py"; EL = "pysolar/elevation.py"
C = "pysolar/constants.py"; RE = "pysolar/rest.py"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe,
                               hook_needed=hook)))


prop("C01", "Computed sun direction matches independent ephemerides everywhere",
     "For every place (any latitude and longitude, up to 9 km elevation) and every timezone-aware instant from 1950 to 2050, the computed azimuth and airless (zero pressure) altitude point within 0.02 degrees of the sun's true direction as given by independent ephemerides. Against the published NREL Solar Position Algorithm fed with the library's own Delta-T convention, the same bound holds for every year from 1 to 6000.",
     ["inputs"], "all latitudes, longitudes, elevations and instants",
     "the suite pins five positions on one evening of December 2016 and one worked example of 2003; other places, seasons, years and hemispheres are never compared with an outside reference",
     [S, ST, C], [("get_position / get_topocentric_position", S), ("VSOP87 and nutation tables", C)],
     ["solar.get_position", "solar.get_altitude", "solar.get_azimuth"])
prop("C02", "Every exposed intermediate quantity follows the published algorithm",
     "Each intermediate quantity the library exposes for the precise position (heliocentric and geocentric longitude and latitude, sun-earth distance, nutation, obliquity, aberration, mean and apparent sidereal time, right ascension, declination, hour angles, parallax, projected observer distances, topocentric coordinates, zenith angle) equals the value that the published NREL algorithm defines for the same inputs, within 1e-8 degrees or astronomical units (1e-6 degrees for sidereal times and what follows from them). This holds over the whole range of each argument, including the centuries far from 2000.",
     ["inputs"], "all epochs from year 1 to 6000 and all angles in their ranges",
     "the suite checks each quantity at one single instant and place, often to 2-4 digits; a wrong table row, sign or higher-order term that vanishes near 2003 is not visible",
     [S, C], [("one function per equation of NREL/TP-560-34302", S), ("coefficient tables", C)],
     ["public functions of pysolar.solar"])
prop("C03", "Topocentric position and zenith angle are the full published chain",
     "For every instant, place, elevation, temperature and pressure, the topocentric declination and hour angle, azimuth, altitude and zenith angle equal those obtained by chaining the published equations (UT for sidereal time, TT for the ephemeris, parallax for the observer's elevation, refraction for the given atmosphere) within 1e-5 degrees. No argument is dropped, swapped or defaulted on the way.",
     ["inputs", "configurations"], "all instants, places, elevations, temperatures and pressures, both numeric backends",
     "only default elevation and atmosphere are pinned end to end; the worked example exercises the stages one by one with hand-written plumbing in the test itself",
     [S, ST], [("get_topocentric_position plumbing", S)],
     ["solar.get_topocentric_position", "solar.get_position", "solar.get_altitude", "solar.get_azimuth"])
prop("C04", "Combined and separate position queries agree for every argument",
     "The combined position query returns the same azimuth and altitude (within rounding) as the separate queries for the same place, instant, elevation, temperature and pressure, however the arguments are passed (positionally, by keyword or defaulted). Omitted arguments mean sea level, 288.15 K and 101325 Pa, and temperature and pressure never affect the azimuth.",
     ["inputs", "programs"], "all argument values and all ways of passing them",
     "the suite calls each query with default atmosphere at one instant and compares to separate constants",
     [S], [("get_position, get_altitude, get_azimuth repeat the same chain", S)],
     ["solar.get_position", "solar.get_altitude", "solar.get_azimuth"])
prop("C05", "Results depend on the instant, not on how its time zone is written",
     "Every time-dependent quantity (precise and fast position, solar time, hour angle, Julian days, leap seconds, Delta-T, direct radiation, extraterrestrial irradiance, declination, earth-sun factor, clear and overcast sky estimates) takes the same value for two datetimes that denote the same instant. This includes every UTC offset down to the microsecond, daylight-saving folds, offsets that change the calendar day, month or year, instances of subclasses of datetime (sunrise and sunset included), and both numeric backends.",
     ["inputs", "configurations"], "all pairs of representations of one instant",
     "tests use UTC or one fixed whole-hour offset and never compare two representations",
     [S, ST, U, R, N], [("utctimetuple / timestamp", ST), ("tm_yday, tm_hour, tm_min for both backends", N)],
     ["all public functions taking a datetime except sunrise/sunset"])
prop("C06", "Naive datetimes are always rejected, aware ones never",
     "Every public function that computes something from a datetime raises the library's no-timezone error (a ValueError) for a datetime without time zone, and a ValueError for a value that is not a datetime (None, number, string, date), however the argument is passed and whichever numeric backend is active. A timezone-aware datetime is never rejected for its time zone.",
     ["inputs", "programs", "configurations"], "all functions x ways of passing the argument x kinds of values x backends",
     "the suite checks most functions with one positional naive value; keyword passing, other wrong types, the radiation estimate and simulation are not covered",
     [TZ, S, ST, U, R, SIM], [("check_aware_dt decorator", TZ)],
     ["all public functions taking a datetime"])
prop("C07", "Refraction lifts the visible sun, and only the visible sun",
     "The refraction correction is proportional to pressure and inversely proportional to absolute temperature, follows the NREL formula for every elevation angle from the rising of the upper limb (-0.83337 degrees) to the zenith, and is exactly zero below it, without error at any angle from -90 to 90. The apparent altitude never decreases when the true elevation increases above that limit, and altitude minus airless altitude always equals this correction.",
     ["inputs"], "all elevation angles, pressures and temperatures",
     "one value inside one zenith angle is checked; the limit, the singularity below the horizon and the scaling are not",
     [S], [("get_refraction_correction", S)], ["solar.get_refraction_correction", "solar.get_altitude", "solar.get_topocentric_zenith_angle"])
prop("C08", "Positions are finite and in range for every valid input",
     "For every latitude from -90 to 90 (poles and zenith crossings included), any longitude from -360 to 720 and any aware datetime from year 1 to 9999, the precise and fast position functions return finite numbers without raising. Azimuths lie in [0, 360] and altitudes in [-90, 91], with both numeric backends.",
     ["inputs", "configurations"], "all valid inputs including degenerate geometry",
     "tests never place the observer at a pole, under the sun or at the equator on an equinox, where rounding drives arcsine arguments past 1",
     [S, N], [("arcsine/arctangent guards", S)],
     ["solar.get_position", "solar.get_altitude_fast", "solar.get_azimuth_fast"])
prop("C09", "Longitudes 360 degrees apart are the same place; a pole is one place",
     "Adding or subtracting whole turns to the longitude changes no position, precise or fast, and no irradiance. At either pole the altitude does not depend on the longitude, and turning the longitude by x degrees turns the azimuth by x degrees.",
     ["inputs"], "all places, instants, whole turns",
     "tests use one longitude convention only",
     [S], [("local hour angle modulo 360", S)], ["solar.get_position", "solar.get_altitude_fast", "solar.get_azimuth_fast", "util.extraterrestrial_irrad"])
prop("C10", "The two numeric backends compute the same values",
     "For scalar arguments, every public function returns the same number with the pure-Python math backend and with the numpy backend (within rounding, 1e-9 relative), and succeeds with both or with neither.",
     ["inputs", "configurations"], "all scalar inputs of all public functions, both backends",
     "test_numpy only checks that calls do not raise; no value is compared between backends",
     [N, S, R, U, "pysolar/elevation.py", RE], [("numeric indirection layer", N)], ["all public functions"])
prop("C11", "Array arguments give exactly the element-by-element results",
     "With the numpy backend, calling a position, radiation or intermediate astronomical function with arrays of latitudes, longitudes, elevations, altitudes, temperatures, pressures, angles, days, Julian dates or datetime64 instants, of any broadcastable shape, gives in each element what the scalar call gives for that element, whatever the other elements are (missing values included) and however many. The arguments passed are not modified.",
     ["inputs"], "all shapes up to the bound, all mixes of scalar and array arguments, all element values",
     "test_numpy prints array results without comparing them to anything except one zero",
     [S, R, N], [("where, boolean masks and datetime64 truncation", N)],
     ["solar.get_position", "solar.get_altitude", "solar.get_azimuth", "solar.get_altitude_fast", "solar.get_azimuth_fast", "radiation.get_radiation_direct"])
prop("C12", "Backend switching is reversible at any point",
     "After any sequence of backend switches, interleaved with any calls, every function behaves exactly as in a fresh process in which only the last switch was made: same values, same types (plain scalars with the math backend), same acceptance or rejection of arrays. The math backend rejects arrays of several places with TypeError in the precise position functions.",
     ["histories", "configurations"], "all sequences of switches and calls",
     "tests switch a few times but never compare behaviour after a round trip",
     [N, "pysolar/__init__.py"], [("use_numpy / use_math rewrite module globals", N)],
     ["pysolar.use_numpy", "pysolar.use_math", "all public functions"])
prop("C13", "Calls are pure: no result depends on earlier calls",
     "The result of any public call depends only on its own arguments and the selected backend: any earlier sequence of calls, with equal, nearly equal or colliding arguments (same instant in other zones, same day elsewhere, ints versus floats), including calls that raise, changes nothing. No call modifies its arguments, the published constant tables or a result handed out by an earlier call.",
     ["histories"], "all call histories",
     "each test asserts on single calls in a fixed order; memoisation, scratch state and aliasing across calls are never exercised",
     [S, C, ST, U], [("lazily built table of argument polynomials", C), ("module-level tables", C)],
     ["all public functions"])
prop("C14", "Concurrent callers get the same results as a single caller",
     "Threads that compute positions, radiation, sunrise or simulations at the same time, starting from a freshly imported library or later, each get exactly the results they would get alone, under every interleaving, and leave the settings of the process that all threads share (warning filters, for one) as they were. No interleaving raises or deadlocks.",
     ["schedules"], "all interleavings of two or three concurrent calls",
     "the suite is single-threaded; the lazily initialised table is a shared global",
     [C, S], [("get_aberration_coeffs builds a global on first use", C)],
     ["solar.get_position", "solar.get_nutation", "radiation.get_radiation_direct", "util.get_sunrise_sunset"])
prop("C15", "Fast positions follow the closed form and stay within 2 degrees",
     "For every place and aware instant from 1950 to 2050 the fast altitude and azimuth point within 2 degrees of the airless precise direction. They equal the textbook closed form (declination 23.45 sin(2 pi/365 (n-81)), equation of time, hour angle) evaluated at the UTC day of year and UTC hour and minute, for every day of leap and common years and in both hemispheres.",
     ["inputs"], "all instants and places",
     "the fast functions are compared on one day at one southern place in daylight only",
     [S, N], [("get_altitude_fast, get_azimuth_fast quadrant selection", S)], ["solar.get_altitude_fast", "solar.get_azimuth_fast"])
prop("C16", "Leap seconds follow the official TAI-UTC history",
     "For every aware instant the leap-second adjustment equals the official TAI-UTC difference (10 s before July 1972, and exactly the announced values from then through the end of the table, changing only at the announced UTC month boundaries), and stays at the last known value afterwards. A warning that Python shows unless told otherwise is issued for instants after the end of the table's validity, and none for instants the table covers.",
     ["inputs"], "all instants, at the resolution of the boundaries",
     "a single instant of 2003 goes through the table in the suite",
     [ST], [("leap_seconds_adjustments table walk", ST)], ["solartime.get_leap_seconds"])
prop("C17", "Delta-T follows the tabulated monthly values and holds at both ends",
     "For every aware instant, Delta-T equals the published (USNO) value tabulated for its UTC year and month from February 1973 to April 2014, the first value before and the last value after. Hence between consecutive months it never changes by more than 0.15 s, and it is always between 43 and 68 s.",
     ["inputs"], "all instants of all months from year 1 to 9999",
     "one instant of 2003 is used by the suite; table ends and year boundaries are not",
     [ST], [("get_delta_t index clamping", ST)], ["solartime.get_delta_t"])
prop("C18", "Julian days count elapsed time on the right scale",
     "The ephemeris (TT) Julian day of an instant is its proleptic Gregorian UTC Julian date plus leap seconds plus 32.184 s, and the solar (UT) Julian day is the TT one minus Delta-T; both to within 0.1 ms for every aware datetime. Between two instants with the same leap-second and Delta-T values the difference is exactly the elapsed time, also across day, month and year ends, leap days and before 1970, and centuries and millennia are the corresponding fractions from J2000.",
     ["inputs"], "all instants and pairs of instants",
     "two Julian days of 2003 are pinned",
     [ST], [("get_julian_solar_day, get_julian_ephemeris_day", ST)], ["solartime.get_julian_solar_day", "solartime.get_julian_ephemeris_day"])
prop("C19", "Solar time and hour angle follow clock, longitude and equation of time",
     "Solar time in hours is the UTC hour and minute plus 4 minutes per degree of longitude plus the equation of time of the UTC day of year, and the hour angle is 15 degrees per hour of it from noon, for every aware instant, longitude and backend. The hour angle agrees with the precise local hour angle of the sun within 1 degree, and the equation of time and the declination follow the published day-of-year formulas for days 1 to 366.",
     ["inputs", "configurations"], "every minute of every day, all longitudes",
     "one hour angle is checked to the nearest degree",
     [S, N], [("get_solar_time, get_hour_angle, equation_of_time", S), ("tm_yday/tm_hour/tm_min", N)],
     ["solar.get_hour_angle", "solar.get_solar_time", "solar.equation_of_time", "solar.get_declination"])
prop("C20", "Sunrise, sunset and transit are when the sun really is there",
     "At the returned sunrise and sunset the airless altitude of the sun's centre is within 0.2 degrees plus |sin(latitude)| times (0.15 degrees plus 1.6 times the daily change of the declination) of -0.833 degrees, and, unless day or night is shorter than an hour and a half, the sun is rising and in the east at sunrise and sinking and in the west at sunset; at the returned transit the local hour angle is within 0.16 degrees of zero. Where the zone asked is so far from the place's own that the transit comes more than 13 hours from noon UTC of that date, up to a day of the sun's own motion is added (the daily change of the declination times |sin(latitude)|, 0.13 degrees at transit). This holds for every place with latitude up to 89 degrees, any longitude and date from 1950 to 2050 for which times are returned.",
     ["inputs"], "all dates, places and time zones",
     "tests only check that these functions accept aware datetimes",
     [U], [("get_sunrise_sunset_transit", U)], ["util.get_sunrise_sunset_transit"])
prop("C21", "Sunrise and sunset answers are for the local calendar day and zone asked",
     "Sunrise, transit and sunset come back ordered and symmetric about transit, expressed in the time zone of the argument, and depend only on the local calendar date, the place and the zone: any time of day on the same local date gives the same instants, also on days when the UTC offset changes. The transit falls on the local date asked for every zone and longitude, across the date line as well (only where it comes within two hours of local midnight may it slip to the next date), and counting the longitude by whole turns changes nothing; single-value and two-value queries return the same values as the full one; where the sun does not rise or set that day a ValueError is raised, never a wrong time.",
     ["inputs", "configurations"], "all local dates, times of day, zones (with transitions) and places",
     "tests only check that these functions accept aware datetimes; two of the four variants have no positive test of their value",
     [U], [("local day arithmetic in get_sunrise_sunset_transit", U)],
     ["util.get_sunrise_sunset_transit", "util.get_sunrise_sunset", "util.get_sunrise_time", "util.get_sunset_time", "util.get_transit_time"])
prop("C22", "Direct radiation is zero at night and physical by day",
     "Direct radiation is exactly zero for every altitude at or below 0 and positive, finite, below the extraterrestrial flux of the day and strictly increasing with altitude up to 90 degrees above it; it never raises or yields nan, arrays included. Its value follows the clear-sky formula flux*exp(-depth*airmass) with the published daily flux and optical depth of the UTC day of year.",
     ["inputs"], "all altitudes (including the last fractions of a degree at the horizon), all days, both backends",
     "one array of three altitudes is checked for one zero",
     [R], [("get_radiation_direct", R)], ["radiation.get_radiation_direct", "radiation.get_air_mass_ratio"])
prop("C23", "Pressure and temperature with elevation follow the standard atmosphere",
     "Temperature changes linearly with elevation at the lapse rate given; pressure is the barometric formula for the base pressure, temperature, lapse rate and base height given, positive and strictly decreasing with elevation up to 11 km, equal to the base pressure at the base height, and splitting a climb into two layers gives the same pressure as one. A warning is issued above 11000 m and never at or below it.",
     ["inputs"], "all elevations and atmosphere parameters",
     "one elevation with default parameters is pinned",
     [EL], [("get_pressure_with_elevation, get_temperature_with_elevation", EL)],
     ["elevation.get_pressure_with_elevation", "elevation.get_temperature_with_elevation"])
prop("C24", "Simulations step evenly and agree with the single-moment functions",
     "A simulated span yields one row for each of the floor(span/step) moments start, start+step, ... before the end, in order, for any positive step, including fractional minutes, and none for an empty or reversed span; the moments are evenly spaced in time and written in the zone of the start, also where daylight saving time begins or ends in between. Each row carries the altitude and azimuth that the position queries give for that moment, place, elevation, temperature and pressure, the horizon entry of the nearest whole degree of azimuth (north being entry 0), and the direct radiation of that moment, replaced by 0 exactly when the sun is behind the horizon entry (entry < 380 - round(380 sin altitude)); rows do not depend on how the consumption of several simulations is interleaved.",
     ["inputs", "histories"], "all spans, steps, horizons, places and interleavings of consumption",
     "simulate has no tests at all",
     [SIM], [("datetime_range, simulate_span", SIM)], ["simulate.datetime_range", "simulate.simulate_span"])
prop("C25", "Extraterrestrial irradiance and clear index are consistent and physical",
     "Extraterrestrial irradiance is zero when the sun is below the horizon of the textbook geometry and otherwise the solar constant given times the sine of the textbook altitude times the published eccentricity factor of the UTC day, hence between 0 and 1.036 times the solar constant. The clear index times that irradiance gives back the measured data by day, the diffuse ratio times the global data gives back the diffuse data, the declination follows the year length given, and the earth-sun factor follows 1-0.0335 sin(2 pi (n-94)/365), all for the UTC day of year n.",
     ["inputs"], "all instants, places and solar constants",
     "tests only check that aware datetimes are accepted",
     [U], [("extraterrestrial_irrad, clear_index, declination_degree, mean_earth_sun_distance", U)],
     ["util.extraterrestrial_irrad", "util.clear_index", "util.diffuse_ratio", "util.declination_degree", "util.mean_earth_sun_distance"])
prop("C26", "Clear and overcast sky estimates use every argument they are given",
     "The global clear-sky irradiance is the sum of the direct and the diffuse clear-sky estimates for the very same place, instant, elevation, temperature, pressure, turbidity, air mass and year length; the direct one is 1367 times the earth-sun factor times the sine of the altitude times exp(-0.8662 AM TL d), d being the declination in degrees for the given year length; clear and overcast diffuse estimates are the earth-sun factor times the diffuse transmittance of the given turbidity times the altitude in degrees; the overcast global estimate is 572 times the altitude. The solar elevation functions are the published trigonometric polynomials of the solar altitude, and the altitude in all of them is that of the position query for the same elevation, temperature and pressure.",
     ["inputs", "programs"], "all argument values and ways of passing them",
     "tests only check that aware datetimes are accepted; no value and no optional argument is tested",
     [U], [("argument forwarding between the estimates", U)],
     ["util.global_irradiance_clear", "util.direct_underclear", "util.diffuse_underclear", "util.diffuse_underovercast", "util.global_irradiance_overcast", "util.solarelevation_function_clear", "util.solarelevation_function_overcast", "util.diffuse_transmittance"])
prop("C27", "Incidence angle on a tilted surface is the angle to its normal",
     "For every sun direction, slope and orientation the incidence angle is the angle between the sun and the surface normal, with orientation counted from south in the sense of azimuth: between 0 and 180, equal to the zenith angle for a horizontal surface and zero for a surface facing the sun squarely, without ever raising. Turning sun and surface together around the vertical changes nothing.",
     ["inputs"], "all sun directions, slopes and orientations",
     "one value is checked to 3 digits",
     [S], [("get_incidence_angle", S)], ["solar.get_incidence_angle"])
prop("C28", "REST2 clear-sky transmittances and beam irradiance are physical",
     "For solar altitudes from 0 to 90 degrees, pressures from 300 to 1100 hPa and ordinary turbidity (beta 0 to 0.6, alpha 1.0 to 1.6), ozone and water amounts, nitrogen dioxide up to 0.001 atm-cm, every REST2 optical mass is at least 0.9997 (scaled by relative pressure for Rayleigh), 1 at the zenith and decreasing with altitude up to 85 degrees; each transmittance of the direct beam is the published (Gueymard 2008) function of its optical mass and of the amount given and lies in (0, 1]; and the direct normal irradiance is positive and below the extraterrestrial one, grows with altitude up to 85 degrees and shrinks with turbidity and pressure. Broadband values are the sums of the two bands, and beam irradiance is the direct normal one times the sine of the altitude.",
     ["inputs"], "all altitudes and atmospheres in the stated ranges",
     "rest.py has no tests; before the repairs listed in known_findings.txt its main functions raised for every input",
     [RE], [("optical masses, transmittances and irradiance per band", RE)],
     ["rest.get_broadband_direct_normal_irradiance", "rest.get_beam_broadband_irradiance", "rest.get_optical_mass_*", "rest.get_*_transmittance"])
prop("C29", "Irradiance estimates for clear and overcast skies are physically possible",
     "The estimates of direct, diffuse and global irradiance under clear and overcast skies never exceed the extraterrestrial irradiance on a surface facing the sun (1.036 times 1367 W/m2) and are never negative while the sun is up. The diffuse and global estimates of the REST2 model can be evaluated for every altitude above the horizon.",
     ["inputs"], "all instants, places and default parameters",
     "tests only check that these functions accept aware datetimes, never a value",
     [U, RE], [("direct_underclear, diffuse_underclear, global_irradiance_*", U), ("get_diffuse_*, get_global_*", RE)],
     ["util.direct_underclear", "util.diffuse_underclear", "util.diffuse_underovercast", "util.global_irradiance_clear", "util.global_irradiance_overcast", "rest.get_global_broadband_irradiance"])
prop("C30", "The Delta-T table generator reproduces its input or refuses it",
     "For any sequence of consecutive monthly Delta-T records starting in any month, the generator prints a table (with base year and month) in which every record appears once, in order, rounded to 4 decimals, in the row of its year, and which the Delta-T lookup, given that table, maps each month of the table to its own record. A file with a gap, a repetition, a reversal, a record not on the first of a month, or an incomplete year in the middle makes it fail instead of printing a complete table.",
     ["inputs", "histories"], "all record sequences up to the bound",
     "the script has no tests and needs the network by default",
     ["util/get_delta_t", ST], [("state machine over records", "util/get_delta_t"), ("index arithmetic of the lookup", ST)],
     ["output of util/get_delta_t FILE", "solartime.get_delta_t"])
prop("C31", "The time-zone check is transparent for every function it guards",
     "A function guarded by the time-zone check for some of its arguments behaves, for aware values, exactly like the unguarded function: same result or exception for every combination of positional, keyword, keyword-only, defaulted, variadic or missing arguments, same name and documentation. Each guarded argument that is given a naive datetime makes the call fail with the error naming that argument before the function body runs, a value that is neither a datetime nor an array raises ValueError, and arrays of datetimes pass; all of this also when the check is stacked or applied to methods (bound or not), classes, callable objects, partial functions, generators, coroutines or functions decorated by others, and what these return is handed on untouched.",
     ["programs", "inputs"], "all function signatures and call shapes up to the bound",
     "tests exercise guarded functions positionally only",
     [TZ], [("check_aware_dt", TZ)], ["tzinfo_check.check_aware_dt", "tzinfo_check.NoTimeZoneInfoError"])
prop("C32", "The library works without numpy and survives a failed backend switch",
     "When numpy cannot be imported, the package imports, all scalar functions give the same values as with numpy present, and asking for the numpy backend raises ImportError and leaves a working math backend; a switch that fails at any single import leaves the values right. When numpy is present it is the default backend, and importing the submodules in any order gives the same behaviour.",
     ["configurations", "fault_sequences"], "numpy present, absent or failing at any import, all import orders",
     "the test environment always has numpy and one import order",
     [N, "pysolar/__init__.py"], [("guarded import at the end of numeric", N)], ["import pysolar", "pysolar.use_numpy"])
prop("C33", "The shipped type stubs describe the real functions",
     "Every function and constant declared in the shipped type stubs exists, and every call shape that a stub accepts (any split into positional and keyword arguments, any omission of optional ones) binds each value to the parameter of the same name in the real function. Conversely each public function of a stubbed module that its stub declares accepts no fewer arguments than the real one, and declared constants and return values are of the declared kind.",
     ["programs"], "all call shapes of all declared functions",
     "stubs are only parsed by the build, never compared with the code",
     ["pysolar/solar.pyi", "pysolar/util.pyi", "pysolar/solartime.pyi", "pysolar/radiation.pyi", "pysolar/simulate.pyi", "pysolar/elevation.pyi", "pysolar/constants.pyi"],
     [("stub files shipped as package data", "setup.py")], ["pysolar/*.pyi", "inspect.signature of the functions"])

prop("C34", "REST2 diffuse building blocks are the published functions",
     "For every optical mass from 1 to 38, turbidity (beta 0 to 0.6, alpha 1.0 to 1.6; for the aerosol depth 0 to 2.5) and band, the REST2 forward scatterance factor, aerosol depth, aerosol transmittances, scattering correction factor, forward Rayleigh fraction, sky albedo and ground albedo equal the published functions of Gueymard (2008), however the arguments are passed. Fractions lie in their physical range, forward scatter grows with altitude, sky albedo with beta; and the backscattered irradiance of a band is rho (beam + diffuse) / (1 - rho), rho being ground albedo times sky albedo for the turbidity given (alpha 1.3 and beta 0.6 when omitted).",
     ["inputs", "programs"], "all altitudes, masses, turbidities, bands, irradiances and ways of passing them",
     "rest.py has no tests at all",
     [RE], [("get_aerosol_*, get_sky_albedo, get_backscattered_diffuse_irradiance_by_band", RE)],
     ["rest.get_aerosol_forward_scatterance_factor", "rest.get_aerosol_scattering_correction_factor", "rest.get_sky_albedo", "rest.get_backscattered_diffuse_irradiance_by_band"])
prop("C35", "Calls, results and errors can cross process boundaries",
     "Every public function can be pickled by reference and run in a worker of a process pool with any start method, and returns there the same value or raises the same error (type, message, argument name and datetime of the no-timezone error included) as a direct call. Results and errors survive every pickle protocol, copying and deep copying. A process forked in the middle of a simulation sees exactly the remaining rows, as does its parent.",
     ["programs", "histories", "configurations"], "all functions, errors, results, pickle protocols, start methods and fork points",
     "no test pickles anything or starts a process; an error that cannot be unpickled hangs or breaks a pool",
     [TZ, SIM, N], [("NoTimeZoneInfoError constructor, decorated functions keep their names", TZ), ("simulate_span keeps its state in a generator", SIM)],
     ["all public functions", "tzinfo_check.NoTimeZoneInfoError", "simulate.simulate_span"])
prop("C36", "All observers see one and the same sun",
     "At any instant, the directions in which observers anywhere on earth (poles, date line, subsolar point and its antipode included) see the airless sun, turned into one earth-fixed frame, agree within the parallax of 0.0056 degrees for the precise functions, at any elevation. For the fast functions they agree within 1e-5 degrees.",
     ["inputs"], "all pairs of places, all instants",
     "tests look at one or two places and never relate them",
     [S], [("local hour angle, topocentric angles; quadrant of the fast azimuth", S)], ["solar.get_position", "solar.get_altitude", "solar.get_azimuth", "solar.get_altitude_fast", "solar.get_azimuth_fast"])
prop("C37", "The computed sun moves evenly through every calendar boundary",
     "Between any two instants less than six hours apart the precise direction of the airless sun turns by an angle between those of the slowest and the fastest apparent motion (15.04 arc seconds per second of elapsed UTC time plus inserted leap seconds, times the cosine of a declination up to 23.46 degrees, within 0.15 s of time where Delta-T steps at a month boundary): it never jumps or stalls at the end of a minute, day, month, year, leap day, leap second or table. The fast direction obeys the same law at its resolution of one minute, apart from one step of at most 0.55 degrees a day at 0h UTC; from day to day at the same UTC time both move by at most 0.56 degrees. Julian days, Delta-T and sidereal time advance evenly likewise.",
     ["inputs", "histories"], "all pairs of neighbouring instants, all places",
     "tests evaluate isolated instants, so a jump between two of them is invisible",
     [ST, S], [("Julian day, leap second and Delta-T lookups", ST), ("day of year and hour arithmetic", N)],
     ["solar.get_position", "solar.get_altitude_fast", "solar.get_azimuth_fast", "solartime.get_julian_solar_day", "solartime.get_julian_ephemeris_day", "solar.get_mean_sidereal_time"])
prop("C38", "Equal values of other types give equal results",
     "Integers, numpy integers and doubles, and subclasses of float give the value that plain floats of equal value give (16-bit integers and single floats to single precision, poles aside), in any mix of parameters and with both backends. So do datetimes of subclasses or with user-written time zones, nutation in any mapping, bands as any string, and simulations with any indexable horizon of at least 360 entries and any kind of number as step.",
     ["inputs", "programs"], "all mixes of argument types of all public functions",
     "tests pass plain floats and datetimes only",
     [S, ST, U, R, SIM, N], [("arithmetic without type tests; numpy.array(datetime)", N)], ["all public functions"])
prop("C39", "Calls leave the process as they found it",
     "No public call, import or backend switch prints anything or changes process-wide state: environment, working directory, module search path, warning filters, floating point error handling, random generators, locale, time zone, signal handlers, threads, child processes, open files, logging, hooks and streams are the same afterwards. The only warnings are those for instants after the leap second table and for elevations above 11000 m (outside the domain of a function, where it raises or has no finite value, numpy's own warnings may appear).",
     ["inputs", "configurations"], "all calls, both backends, all interpreter modes",
     "tests never look at the process around a call",
     [S, ST, U, R, N, SIM, "pysolar/__init__.py"], [("pure functions; the backend switch only rewrites its own module", N)], ["all public functions", "import pysolar"])
prop("C40", "Results do not depend on the process environment",
     "Every public function gives the same value, error and warnings whatever the system time zone, the date shown by the system clock, the locale, hash seed, interpreter flags (optimised, isolated, development mode) and environment variables, and whether it is called in the main thread, another thread, an event loop, a deep stack, another directory or under a profiler.",
     ["configurations", "inputs"], "all environments and calling contexts of the alphabets, all public functions",
     "tests run in one environment, in UTC, today",
     [ST, S, U, N], [("only utctimetuple, timestamps and offsets of the argument are used", ST)], ["all public functions"])
prop("C41", "Interrupted calls leave the library intact, and calls may nest",
     "A public call or backend switch that is ended at any point by an exception from outside (KeyboardInterrupt, a time-out, MemoryError, an exhausted stack, a warning turned into an error) passes that exception on and disturbs no later call: the same call repeated, and any other, gives exactly what it gives in a fresh process with the backend last asked for. A call made from within another one, by a time zone, horizon, nutation or warning hook of the user's that the library consults, returns what it returns alone, and so does the outer one.",
     ["crash_points", "fault_sequences", "schedules"], "every line, function start and return of every public function as the place of the interruption, every depth of the stack, every consultation of a user's object",
     "tests let every call run to its end and never nest calls",
     [S, ST, C, U, N, SIM, R, RE], [("lazily built polynomial table", C), ("module globals rewritten one by one by a backend switch", N)], ["all public functions", "use_numpy, use_math"])
prop("C42", "What the library keeps between calls stays bounded",
     "However many calls are made, with however many different instants, places and other arguments, successful or failing, interleaved with backend switches, simulations and newly guarded functions, the data that the library keeps from one call to the next stays bounded: nothing in it grows with the number of distinct calls.",
     ["histories"], "histories of any length of every public function, varying any of its arguments",
     "tests make a few dozen calls per process and never look at what is left behind",
     [S, ST, C, U, N, SIM, R, RE, EL, TZ], [("pure functions, one lazily built table", C)], ["module state of pysolar"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
