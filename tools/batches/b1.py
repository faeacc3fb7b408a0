S = [
dict(id="c01-kw-time", prop="C01", edits=[("pysolar/tzinfo_check.py","          except (IndexError, ValueError):\n            dt = kwargs[argname]\n","          except (IndexError, ValueError):\n            if len(args) == len(full.args) - 1:\n              continue\n            dt = kwargs[argname]\n")],
 needs="a naive time passed by keyword after all the other arguments by position", breaks="a naive time passed by keyword is not refused when it is the only keyword",
 demo="""
import datetime
from pysolar import util
try:
    util.get_sunrise_sunset_transit(10.0, 20.0, when=datetime.datetime(2010, 1, 1))
except ValueError:
    raise SystemExit(0)
raise SystemExit("naive accepted")
"""),
dict(id="c08-leap-1997", prop="C08", edits=[("pysolar/solartime.py","            if when.tm_mon > 6 :\n","            if when.tm_mon > 6 + (year == 1997) :\n")],
 needs="a date in July 1997", breaks="TAI-UTC changes a month late in 1997",
 demo="""
import datetime
from pysolar import solartime
u = datetime.timezone.utc
for y in range(1994, 2000):
    a = solartime.get_leap_seconds(datetime.datetime(y, 7, 15, tzinfo=u))
    b = solartime.get_leap_seconds(datetime.datetime(y, 8, 15, tzinfo=u))
    assert a == b, (y, a, b)
"""),
dict(id="c15-declination-leap", prop="C15", edits=[("pysolar/solar.py","(2 * math.pi / 365.0) * (day - 81)","(2 * math.pi / 365.0) * (math.clip(day, 1, 365) - 81)")],
 needs="31 December of a leap year (day 366)", breaks="declination, fast altitude and fast azimuth of day 366 are those of day 365",
 demo="""
import math
from pysolar import solar
for d in (1, 200, 365, 366):
    assert abs(float(solar.get_declination(d)) - 23.45 * math.sin(2 * math.pi / 365 * (d - 81))) < 1e-9, d
"""),
dict(id="c05-inplace-tlha", prop="C05", edits=[("pysolar/solar.py","def get_topocentric_local_hour_angle(local_hour_angle, parallax_sun_right_ascension):\n    return local_hour_angle - parallax_sun_right_ascension","def get_topocentric_local_hour_angle(local_hour_angle, parallax_sun_right_ascension):\n    local_hour_angle -= parallax_sun_right_ascension\n    return local_hour_angle")],
 needs="arrays of longitudes: the declination step that follows reads the modified hour angle; or a caller reusing his array",
 breaks="the caller's array of local hour angles is modified",
 demo="""
import numpy as np
from pysolar import solar
h = np.array([10.0, 20.0, 30.0])
solar.get_topocentric_local_hour_angle(h, 0.5)
assert (h == [10.0, 20.0, 30.0]).all(), h
"""),
dict(id="c06-nutation-memo", prop="C06", edits=[("pysolar/solar.py","def get_nutation(jce):\n    abcd = constants.nutation_coefficients\n","_nutation_cache = {}\n\n\ndef get_nutation(jce):\n    key = round(jce, 4)\n    if key not in _nutation_cache:\n        _nutation_cache[key] = _compute_nutation(jce)\n    return _nutation_cache[key]\n\n\ndef _compute_nutation(jce):\n    abcd = constants.nutation_coefficients\n")],
 needs="two calls in one process within days of each other", breaks="the second result is the nutation of the earlier call's time",
 demo="""
from pysolar import solar
a = solar.get_nutation(0.123401)
import subprocess
r = subprocess.run([sys.executable, "-c", "from pysolar import solar; solar.get_nutation(0.12344); print(repr(float(solar.get_nutation(0.123401)['longitude'])))"], capture_output=True, text=True, env=dict(os.environ, PYTHONPATH=os.getcwd()))
assert r.returncode == 0, r.stderr
assert float(r.stdout) == float(a['longitude']), (r.stdout, a)
"""),
dict(id="c12-ra-solstice", prop="C12", edits=[("pysolar/solar.py","    alpha = math.atan2((a - b),  c)\n","    alpha = math.where(abs(c) < 1e-3, math.atan2(a, c), math.atan2((a - b),  c))\n")],
 needs="apparent longitude within 0.06 degree of a solstice", breaks="right ascension leaves out the latitude term near the solstices",
 demo="""
import math
from pysolar import solar
def ra(l, e, b):
    l, e, b = map(math.radians, (l, e, b))
    return math.degrees(math.atan2(math.sin(l) * math.cos(e) - math.tan(b) * math.sin(e), math.cos(l))) % 360
for l in (10.0, 90.03, 200.0, 269.98):
    for b in (-0.5, 0.0002, 0.3):
        assert abs(float(solar.get_geocentric_sun_right_ascension(l, 23.44, b)) - ra(l, 23.44, b)) < 1e-9, (l, b)
"""),
dict(id="c14-position-elevation", prop="C14", edits=[("pysolar/solar.py","    topocentric_sun_declination, topocentric_local_hour_angle = \\\n        get_topocentric_position(latitude_deg, longitude_deg, when, elevation)\n\n    topocentric_elevation_angle = \\\n","    topocentric_sun_declination, topocentric_local_hour_angle = \\\n        get_topocentric_position(latitude_deg, longitude_deg, when)\n\n    topocentric_elevation_angle = \\\n")],
 needs="get_position with a non-zero elevation", breaks="get_position ignores the elevation",
 demo="""
import datetime
from pysolar import solar
w = datetime.datetime(2010, 6, 21, 12, 0, tzinfo=datetime.timezone.utc)
az, al = solar.get_position(40.0, 10.0, w, 100000)
assert al == solar.get_altitude(40.0, 10.0, w, 100000) and az == solar.get_azimuth(40.0, 10.0, w, 100000)
"""),
dict(id="c10-odd-powers", prop="C10", edits=[("pysolar/solar.py","        x *= jme\n","        x *= abs(jme)\n")],
 needs="a date before 2000 (negative Julian millennium)", breaks="the odd powers of time in the series have the wrong sign before 2000",
 demo="""
import math
from pysolar import solar, constants
for s in (constants.heliocentric_longitude_coeffs, constants.sun_earth_distance_coeffs, constants.heliocentric_latitude_coeffs):
    for jme in (-0.3, 0.003, 0.7):
        e = sum(sum(a * math.cos(b + c * jme) for a, b, c in l) * jme ** i for i, l in enumerate(s))
        assert abs(e - float(solar.get_coeff(jme, s))) < 1e-9 * abs(e) + 1e-6, (jme, e - solar.get_coeff(jme, s))
"""),
]
