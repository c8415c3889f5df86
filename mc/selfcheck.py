"""Self-test of the reference models (no pysolar involved): the worked example of NREL/TP-560-34302 appendix A.5, the
USNO rows against the reference SPA, and the two references against each other."""
import datetime
import os
import numpy as np
from .ref import spa, timeref, meeus


def usno():
    rows = []
    with open(os.path.join(os.path.dirname(__file__), "ref", "usno.txt")) as f:
        for line in f:
            p = line.split()
            if len(p) == 7:
                t = datetime.datetime.strptime(p[0] + " " + p[1], "%Y-%m-%d %H:%M:%S")
                rows.append((t,) + tuple(float(x) for x in p[2:]))
    return rows


def main():
    jd = 2452930 + (19.5 + 30 / 3600 - 12) / 24
    jde = jd + 67 / 86400
    az, e0, alt = spa.position(jd, jde, 39.742476, -105.1786, 1830.14, 82000.0, 284.15)
    assert abs((90 - alt) - 50.11162) < 2e-5, 90 - alt
    assert abs(az - 194.34024) < 2e-5, az
    rows = usno()
    assert len(rows) == 6259, len(rows)
    utc = datetime.timezone.utc
    t = [r[0].replace(tzinfo=utc) for r in rows]
    jd = np.array([timeref.jd(x) for x in t])
    jde = np.array([timeref.jde(x) for x in t])
    lat, lon, el, az, zd = (np.array([r[i] for r in rows]) for i in range(1, 6))
    a, e0, _ = spa.position(jd, jde, lat, lon, el)
    s = spa.separation(a, e0, az, 90 - zd)
    assert s.max() < 0.01, s.max()
    a2, e2 = meeus.position(jd, lat, lon)
    assert spa.separation(a, e0, a2, e2).max() < 0.015
    assert timeref.leap_seconds(2020, 1) == 37 and timeref.delta_t(2000, 1) == 63.8285
    print("reference models agree: USNO max %.4f deg" % s.max())


if __name__ == "__main__":
    main()
