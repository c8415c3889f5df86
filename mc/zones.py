"""Time zones of the harness's own making (no system database): fixed offsets, two DST zones, a zone that changed its
standard offset once.  Each is defined by its list of (UTC instant, offset) transitions."""
import datetime

D0 = datetime.timedelta(0)
UTC = datetime.timezone.utc


class Zone(datetime.tzinfo):
    def __init__(self, name, rule, called=True):
        self.called = name if called is True else called
        self.name, self.rule = name, rule        # rule: naive UTC datetime -> offset in seconds

    def fromutc(self, d):
        u = d.replace(tzinfo=None)
        off = self.rule(u)
        loc = u + datetime.timedelta(seconds=off)
        # fold: an earlier instant had the same wall clock
        fold = 0
        for back in (600, 1800, 3600, 7200, 86400):
            v = u - datetime.timedelta(seconds=back) if u > datetime.datetime(1, 1, 3) else u
            o = self.rule(v)
            if o - off == back:
                fold = 1
        return d.replace(year=loc.year, month=loc.month, day=loc.day, hour=loc.hour, minute=loc.minute,
                         second=loc.second, microsecond=loc.microsecond, fold=fold)

    def utcoffset(self, d):
        if d is None:
            return None
        loc = d.replace(tzinfo=None, fold=0)
        # candidates: offsets in force around the wall time
        lo, hi = datetime.datetime(1, 1, 3), datetime.datetime(9999, 12, 29)
        near = min(max(loc, lo), hi)
        a = self.rule(near - datetime.timedelta(days=1))
        b = self.rule(near + datetime.timedelta(days=1))
        if a == b:
            return datetime.timedelta(seconds=a)
        ok = [o for o in (a, b) if self.rule(loc - datetime.timedelta(seconds=o)) == o]
        if not ok:                # in the gap: the offset before (fold=0) or after it, as PEP 495 says
            return datetime.timedelta(seconds=a if not d.fold else b)
        return datetime.timedelta(seconds=(ok[-1] if d.fold else ok[0]))

    def dst(self, d):
        if self.called is None:      # as the documentation of datetime allows
            return None
        summer, standard = SUMMER.get(self.name, (None, None))
        off = self.utcoffset(d)
        if off is None or summer is None or off.total_seconds() != summer:
            return D0
        return datetime.timedelta(seconds=summer - standard)

    def tzname(self, d):
        return self.called

    def __repr__(self):
        return "Zone(%s)" % self.name


SUMMER = {"berlin": (7200, 3600), "santiago": (-3 * 3600, -4 * 3600), "lordhowe": (39600, 37800), "monthly": (3600, 0)}


def last_sunday(y, m, hour):
    d = datetime.datetime(y + (m == 12), m % 12 + 1, 1) - datetime.timedelta(days=1)
    d -= datetime.timedelta(days=(d.weekday() + 1) % 7)
    return d.replace(hour=hour)


def _berlin(u):
    return 7200 if last_sunday(u.year, 3, 1) <= u < last_sunday(u.year, 10, 1) else 3600


def _santiago(u):
    return -4 * 3600 if last_sunday(u.year, 3, 3) <= u < last_sunday(u.year, 9, 4) else -3 * 3600


def _lord_howe(u):        # half-hour daylight saving time, changes at local midnight-ish
    return 37800 if last_sunday(u.year, 3, 15) <= u < last_sunday(u.year, 9, 15) else 39600


def _apia(u):             # skips a whole day at the end of 2011
    return -10 * 3600 if u < datetime.datetime(2011, 12, 30, 10) else 14 * 3600


def _lmt(u):              # local mean time until 1911, with seconds in the offset
    return 561 if u < datetime.datetime(1911, 3, 10, 23) else 3600


def _monrovia(u):         # an offset with seconds until 1972
    return -2670 if u < datetime.datetime(1972, 1, 7) else 0


def _boston(u):
    return -18000


def _kathmandu(u):
    return 20700


def _monthly(u):          # the clocks go back an hour at the end of every even month (UTC) and forward at the end of every odd one: repeated hours on either side of every half year
    return 3600 if u.month % 2 == 0 else 0


ZONES = {n: Zone(n, f) for n, f in dict(berlin=_berlin, santiago=_santiago, lordhowe=_lord_howe, apia=_apia, lmt=_lmt,
                                        monrovia=_monrovia, kathmandu=_kathmandu, monthly=_monthly).items()}
# the same offsets under misleading names, or none
ZONES.update(as_utc=Zone("as_utc", _berlin, "UTC"), as_gmt=Zone("as_gmt", _boston, "GMT"), nameless=Zone("nameless", _kathmandu, None), empty=Zone("empty", _boston, ""))


def write(u, how):
    """aware datetime for the naive UTC instant u, written in zone `how` (a name, an offset in seconds, or an offset with a name for it)"""
    d = u.replace(tzinfo=UTC)
    if isinstance(how, str):
        return d.astimezone(ZONES[how])
    if isinstance(how, list):
        return d.astimezone(datetime.timezone(datetime.timedelta(seconds=how[0]), how[1]))
    if how == 0:
        return d
    return d.astimezone(datetime.timezone(datetime.timedelta(seconds=how)))
