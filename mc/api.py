"""What the checks know about the public interface: how to call each function, with which alphabets.
Everything goes through public names of the package."""
import datetime

from . import core, domains as D

pysolar = core.use_repo()
from pysolar import solar, solartime, radiation, util, constants, elevation, simulate, numeric  # noqa: E402
from pysolar import rest, tzinfo_check  # noqa: E402

MODS = dict(solar=solar, solartime=solartime, radiation=radiation, util=util, constants=constants,
            elevation=elevation, simulate=simulate, numeric=numeric, rest=rest, tzinfo_check=tzinfo_check)

LAT, LON, WHEN = "latitude_deg", "longitude_deg", "when"
# every public function that takes a datetime: name -> [(parameter, kind)], in the documented order
TIMED = {
    "solar.get_topocentric_position": [LAT, LON, WHEN, "elevation"],
    "solar.get_position": [LAT, LON, WHEN, "elevation", "temperature", "pressure"],
    "solar.get_altitude": [LAT, LON, WHEN, "elevation", "temperature", "pressure"],
    "solar.get_azimuth": [LAT, LON, WHEN, "elevation"],
    "solar.get_altitude_fast": [LAT, LON, WHEN],
    "solar.get_azimuth_fast": [LAT, LON, WHEN],
    "solar.get_hour_angle": [WHEN, LON],
    "solar.get_solar_time": [LON, WHEN],
    "solartime.get_leap_seconds": [WHEN],
    "solartime.get_delta_t": [WHEN],
    "solartime.get_julian_solar_day": [WHEN],
    "solartime.get_julian_ephemeris_day": [WHEN],
    "radiation.get_radiation_direct": [WHEN, "altitude_deg"],
    "util.get_sunrise_sunset_transit": [LAT, LON, WHEN],
    "util.get_sunrise_sunset": [LAT, LON, WHEN],
    "util.get_sunrise_time": [LAT, LON, WHEN],
    "util.get_sunset_time": [LAT, LON, WHEN],
    "util.get_transit_time": [LAT, LON, WHEN],
    "util.mean_earth_sun_distance": [WHEN],
    "util.extraterrestrial_irrad": [LAT, LON, WHEN, "SC"],
    "util.declination_degree": [WHEN, "TY"],
    "util.solarelevation_function_clear": [LAT, LON, WHEN, "temperature", "pressure", "elevation"],
    "util.solarelevation_function_overcast": [LAT, LON, WHEN, "elevation", "temperature", "pressure"],
    "util.diffuse_underclear": [LAT, LON, WHEN, "elevation", "temperature", "pressure", "TL"],
    "util.diffuse_underovercast": [LAT, LON, WHEN, "elevation", "temperature", "pressure", "TL"],
    "util.direct_underclear": [LAT, LON, WHEN, "TY", "AM", "TL", "elevation", "temperature", "pressure"],
    "util.global_irradiance_clear": [LAT, LON, WHEN, "TY", "AM", "TL", "elevation", "temperature", "pressure"],
    "util.global_irradiance_overcast": [LAT, LON, WHEN, "elevation", "temperature", "pressure"],
    "util.clear_index": ["ghi_data", LAT, LON, WHEN],
}
# documented meaning of an omitted argument
DEFAULTS = dict(elevation=0.0, temperature=288.15, pressure=101325.0, SC=1367.0, TY=365, AM=2.0, TL=1.0)
SUNRISE = [f for f in TIMED if f.startswith("util.get_")]
INSTANT_ONLY = [f for f in TIMED if f not in SUNRISE]


def fn(name):
    mod, f = name.split(".")
    return getattr(MODS[mod], f)


def backend(name):
    pysolar.use_math() if name == "math" else pysolar.use_numpy()


BACKENDS = ["math", "numpy"]


def outcome(f, *a, **k):
    """('ok', value) or ('raise', exception type name, text)"""
    try:
        return ("ok", f(*a, **k))
    except Exception as e:  # noqa: BLE001 - every exception is an observation here
        return ("raise", type(e).__name__, str(e))


def values(x):
    """flatten a result into a list of comparable leaves (numbers, datetimes, strings)"""
    import numpy as np
    if isinstance(x, dict):
        return [v for k in sorted(x) for v in values(x[k])]
    if isinstance(x, (list, tuple)):
        return [v for y in x for v in values(y)]
    if isinstance(x, np.ndarray) and x.ndim:
        return [v for y in x for v in values(y)]
    return [x]


def close(a, b, rel=1e-9, absolute=1e-9, angle=False):
    """same structure and same numbers within rounding; datetimes within 1 ms and same offset"""
    va, vb = values(a), values(b)
    if len(va) != len(vb):
        return False
    for x, y in zip(va, vb):
        if isinstance(x, datetime.datetime) or isinstance(y, datetime.datetime):
            if not (isinstance(x, datetime.datetime) and isinstance(y, datetime.datetime)):
                return False
            if abs((x - y).total_seconds()) > 1e-3:
                return False
        elif isinstance(x, str) or x is None or isinstance(y, str) or y is None:
            if x != y:
                return False
        else:
            if not D.same_number(x, y, rel, absolute):
                if not (angle and abs(D.angle_diff(float(x), float(y))) <= absolute + rel * 360):
                    return False
    return True


def required(name):
    return [p for p in TIMED[name] if p not in DEFAULTS]


def shapes(params, optional):
    """every way to split a call: (number of leading positional arguments, names passed by keyword); parameters that are
    neither are omitted (optional ones only)"""
    res = []
    for npos in range(len(params) + 1):
        rest = params[npos:]
        must = [p for p in rest if p not in optional]
        may = [p for p in rest if p in optional]
        for mask in range(1 << len(may)):
            res.append((npos, must + [p for i, p in enumerate(may) if mask >> i & 1]))
    return res


def apply_shape(f, params, shape, vals):
    npos, kws = shape
    return f(*[vals[p] for p in params[:npos]], **{k: vals[k] for k in kws})


def effective(params, shape, vals):
    npos, kws = shape
    given = set(params[:npos]) | set(kws)
    return {p: (vals[p] if p in given else DEFAULTS[p]) for p in params}
