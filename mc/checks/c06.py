"""Exhaustive call-shape enumeration of rejection: every public datetime function x every split of its parameters into
positional, keyword and omitted x an alphabet of naive datetimes and non-datetimes x both backends; and acceptance of every
aware datetime of an alphabet of tzinfo kinds."""
import datetime

from .. import domains as D, zones
from ..core import Space, Outcome
from .. import api

PROP = "C06"
N = datetime.datetime
VALS = dict(latitude_deg=42.2, longitude_deg=-71.4, elevation=10.0, temperature=290.0, pressure=99000.0, altitude_deg=33.3,
            ghi_data=500.0, SC=1361.0, TY=365, AM=1.5, TL=2.0)
OTHER = dict(VALS, latitude_deg=-20.0, longitude_deg=0, altitude_deg=-5.0, ghi_data=0.0, elevation=0)


class Sub(datetime.datetime):
    pass


class OddZone(datetime.tzinfo):
    """minimal tzinfo: utcoffset only, falsy in a boolean context"""

    def utcoffset(self, d):
        return datetime.timedelta(hours=-7)

    def dst(self, d):
        return None

    def tzname(self, d):
        return ""

    def __bool__(self):
        return False

    def fromutc(self, d):
        return d + datetime.timedelta(hours=-7)


class BareZone(datetime.tzinfo):
    """a zone that does not say anything about daylight saving time"""

    def utcoffset(self, d):
        return datetime.timedelta(hours=5, minutes=45)

    def dst(self, d):
        return None

    def tzname(self, d):
        return None


NAIVE = {"naive": N(2020, 6, 21, 12), "naive-midnight": N(2020, 1, 1), "naive-1970": N(1970, 1, 1), "naive-fold": N(2020, 10, 25, 2, 30, fold=1),
         "naive-min": N(1, 1, 1), "naive-max": N(9999, 12, 31, 23, 59, 59, 999999), "naive-sub": Sub(2020, 6, 21, 12),
         "naive-us": N(1999, 12, 31, 23, 59, 59, 999999), "utcnow-like": N(2024, 2, 29, 0, 0, 1)}
NOT = {"None": None, "int": 5, "zero": 0, "float": 1592740800.5, "str": "2020-06-21T12:00:00+00:00", "date": datetime.date(2020, 6, 21),
       "empty": "", "bool": True, "timedelta": datetime.timedelta(1), "tuple": (2020, 6, 21), "list": [2020, 6, 21], "object": object(),
       "naive-time": datetime.time(12), "time": datetime.time(12, tzinfo=D.UTC), "midnight": datetime.time(0, tzinfo=datetime.timezone(datetime.timedelta(hours=-3))), "bytes": b"2020", "dict": {}, "tz": datetime.timezone.utc}
AWARE = {"utc": N(2020, 6, 21, 12, tzinfo=D.UTC), "+0530": N(2020, 6, 21, 12, tzinfo=datetime.timezone(datetime.timedelta(seconds=19800))),
         "-0001": N(2020, 6, 21, 12, tzinfo=datetime.timezone(datetime.timedelta(seconds=-1))), "sub": Sub(2020, 6, 21, 12, tzinfo=D.UTC),
         "odd": N(2020, 6, 21, 12, tzinfo=OddZone()), "bare": N(2020, 6, 21, 12, tzinfo=BareZone()), "zero-offset": N(2020, 6, 21, 12, tzinfo=datetime.timezone(datetime.timedelta(0), "")),
         "berlin": N(2020, 6, 21, 12, tzinfo=zones.ZONES["berlin"]), "gap": N(2020, 3, 29, 2, 30, tzinfo=zones.ZONES["berlin"]),
         "fold": N(2020, 10, 25, 2, 30, tzinfo=zones.ZONES["berlin"], fold=1), "epoch": N(1970, 1, 1, tzinfo=D.UTC)}


def reject(cases):
    out = Outcome()
    NoTZ = api.tzinfo_check.NoTimeZoneInfoError
    for c in cases:
        name, shape, key, b, v = c
        api.backend(b)
        params = api.TIMED[name]
        bad = NAIVE.get(key) if key in NAIVE else NOT[key]
        vals = dict((VALS, OTHER)[v], when=bad)
        out.call()
        try:
            r = api.apply_shape(api.fn(name), params, shape, vals)
        except NoTZ as e:
            if isinstance(e, ValueError):
                out.ok()
            else:
                out.fail(c, "the no-timezone error is not a ValueError")
        except ValueError as e:
            if key in NAIVE:
                out.fail(c, "%s rejected a naive datetime with %s: %s" % (name, type(e).__name__, e))
            else:
                out.ok()
        except Exception as e:  # noqa: BLE001
            out.fail(c, "%s(%s) raised %s: %s, not a ValueError" % (name, key, type(e).__name__, e))
        else:
            out.fail(c, "%s(%s) = %r, not rejected" % (name, key, r))
    return out


def simulate(cases):
    out = Outcome()
    NoTZ = api.tzinfo_check.NoTimeZoneInfoError
    for key, b in cases:
        api.backend(b)
        if key in ("naive-max",):
            continue
        start = NAIVE[key]
        try:
            out.call()
            r = list(api.simulate.simulate_span(42.0, -71.0, [0.0] * 361, start, start + datetime.timedelta(hours=1), 30))
        except NoTZ:
            out.ok()
        except Exception as e:  # noqa: BLE001
            out.fail([key, b], "simulate_span raised %s: %s" % (type(e).__name__, e))
        else:
            out.fail([key, b], "simulate_span accepted naive datetimes: %r" % r)
    return out


def accept(cases):
    out = Outcome()
    for c in cases:
        name, shape, key, b = c
        api.backend(b)
        r = api.outcome(api.apply_shape, api.fn(name), api.TIMED[name], shape, dict(VALS, when=AWARE[key]))
        out.call()
        if r[0] == "ok" or name == "util.clear_index" and r[1] == "ZeroDivisionError":   # the sun is down
            out.ok()
        else:
            out.fail(c, "%s rejected the aware datetime %r: %s %s" % (name, AWARE[key], r[1], r[2]))
    return out


def spaces(tier):
    th = tier == "thorough"
    rej, acc = [], []
    for name, params in api.TIMED.items():
        for i, sh in enumerate(api.shapes(params, set(api.DEFAULTS))):
            for j, key in enumerate(list(NAIVE) + list(NOT)):
                for k, b in enumerate(api.BACKENDS):
                    if th or i < 4 or (i + j + k) % 3 == 0:
                        rej.append([name, list(sh), key, b, (i + j) % 2])
            for j, key in enumerate(AWARE):
                if th or i < 4 or (i + j) % 5 == 0:
                    for b in api.BACKENDS:
                        acc.append([name, list(sh), key, b])
    return [Space("reject", rej, reject, chunk=500), Space("simulate", [[k, b] for k in NAIVE for b in api.BACKENDS], simulate),
            Space("accept", acc, accept, chunk=250)]
