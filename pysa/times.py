"""Sample instants: uniform, calendar edges (month/year ends, leap days), day edges, far past and future."""
import calendar
import datetime as dt
import numpy as np

EPOCH = dt.datetime(1970, 1, 1)


def ts(y, m=1, d=1, h=0, mi=0, s=0, us=0):
    return (dt.datetime(y, m, d, h, mi, s, us) - EPOCH).total_seconds()


LO, HI = ts(1, 1, 3), ts(9999, 12, 29)
_edges = None


def edges():
    global _edges
    if _edges is None:
        e = []
        for y in range(1950, 2071):
            for m in range(1, 13):
                e.append(ts(y, m))
        _edges = np.array(e)
    return _edges


def leapdays():
    out = []
    for y in range(1948, 2073):
        for (m, d) in ((2, 28), (2, 29), (3, 1), (12, 30), (12, 31), (1, 1), (12, 31), (12, 31)):
            if (m, d) == (2, 29) and not calendar.isleap(y):
                continue
            out.append(ts(y, m, d))
            if calendar.isleap(y):
                out.append(ts(y, m, d))
    return np.array(out)


_leap = None


def sample(n, rng):
    global _leap
    if _leap is None:
        _leap = leapdays()
    kind = rng.random(n)
    day = np.floor(rng.uniform(ts(1950) / 86400, ts(2071) / 86400, n))
    tod = rng.uniform(0, 86400, n)
    tod = np.where(rng.random(n) < 0.5, np.floor(tod), tod)
    sp = np.array([0, 1, 59, 60, 3599, 3600, 21600, 43200, 43199, 64800, 86399, 86399.5, 86399.999999, 0.5])
    tod = np.where(rng.random(n) < 0.25, rng.choice(sp, n), tod)
    x = day * 86400 + tod
    off = rng.choice(np.array([-86400, -3600, -1, -0.001, 0, 0, 1, 3600, 43200, 86400 - 1, 86400]), n)
    x = np.where(kind < 0.2, rng.choice(edges(), n) + off, x)
    x = np.where((kind >= 0.2) & (kind < 0.35), rng.choice(_leap, n) + tod, x)
    x = np.where((kind >= 0.35) & (kind < 0.45), rng.uniform(ts(1800), ts(2300), n), x)
    x = np.where((kind >= 0.45) & (kind < 0.48), rng.uniform(LO, HI, n), x)
    return np.clip(np.round(x * 1e6) / 1e6, LO, HI)


def iso(x):
    try:
        return (EPOCH + dt.timedelta(seconds=x)).isoformat() + "Z"
    except Exception:
        return repr(x)
