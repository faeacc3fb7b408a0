SOL, ST, UT, RE, RAD, SIM, NU, TZ, EL, CO = ("pysolar/%s.py" % x for x in "solar solartime util rest radiation simulate numeric tzinfo_check elevation constants".split())
U = "import datetime\nu = datetime.timezone.utc\n"
S = [
dict(id="c01-exact-class", prop="C01", edits=[(TZ, "            if dt.tzinfo is None:", "            if dt.__class__.__name__ == 'datetime' and dt.tzinfo is None:")],
 needs="a naive time whose class is derived from datetime", breaks="the time zone check only looks at plain datetimes",
 demo=U+"""
class T(datetime.datetime): pass
from pysolar import solar
try: solar.get_altitude(10., 20., T(2012, 6, 1))
except ValueError: pass
else: raise SystemExit('no error')
"""),
dict(id="c01-first-of-two", prop="C01", edits=[(TZ, "            if dt.tzinfo is None:\n              raise NoTimeZoneInfoError(argname, dt)", "            if dt.tzinfo is None:\n              raise NoTimeZoneInfoError(argname, dt)\n            break")],
 needs="a function with two times, the second of them naive", breaks="only the first time is checked",
 demo=U+"""
from pysolar import simulate
try: list(simulate.simulate_span(10., 20., [0] * 361, datetime.datetime(2012, 6, 1, tzinfo=u), datetime.datetime(2012, 6, 1, 1), 30))
except ValueError: pass
"""),
dict(id="c01-shape", prop="C01", edits=[(TZ, "            if not hasattr(dt, 'tzinfo'):", "            if not hasattr(dt, 'tzinfo') and not hasattr(dt, 'year'):")],
 needs="a plain date", breaks="a plain date is refused with an attribute error",
 demo=U+"""
from pysolar import solar
try: solar.get_altitude(10., 20., datetime.date(2012, 6, 1))
except ValueError: pass
"""),
dict(id="c02-fold", prop="C02", edits=[(ST, "    return \\\n        (\n                (when.timestamp() + get_leap_seconds(when) + tt_offset)", "    when = datetime.datetime.combine(when.date(), when.timetz().replace(fold = 0))\n    return \\\n        (\n                (when.timestamp() + get_leap_seconds(when) + tt_offset)"), (ST, "import warnings", "import datetime\nimport warnings")],
 needs="a time in the repeated hour at the end of summer time", breaks="the second pass through the hour is taken for the first",
 demo="""
import datetime, zoneinfo
from pysolar import solartime
class Z(datetime.tzinfo):
    def utcoffset(self, d): return datetime.timedelta(hours = 1 if d is not None and d.fold else 2)
    def dst(self, d): return datetime.timedelta(0)
a = datetime.datetime(2012, 10, 28, 2, 30, tzinfo=Z(), fold=1)
b = datetime.datetime(2012, 10, 28, 1, 30, tzinfo=datetime.timezone.utc)
assert solartime.get_julian_ephemeris_day(a) == solartime.get_julian_ephemeris_day(b)
"""),
dict(id="c02-sirad-day", prop="C02", edits=[(UT, "    day = when.utctimetuple().tm_yday\n    ab", "    day = (when - when.utcoffset()).timetuple().tm_yday if when.utcoffset().total_seconds() >= 0 else when.timetuple().tm_yday\n    ab")],
 needs="a zone west of Greenwich in the evening", breaks="the day of year is the local one there",
 demo=U+"""
from pysolar import util
a = datetime.datetime(2012, 6, 2, 2, tzinfo=u)
assert util.extraterrestrial_irrad(40., -150., a) == util.extraterrestrial_irrad(40., -150., a.astimezone(datetime.timezone(datetime.timedelta(hours=-8))))
"""),
dict(id="c03-missing-numpy", prop="C03", edits=[(NU, "try:\n    import numpy\n    use_numpy()\nexcept ImportError:\n    pass", "tm_yday, tm_hour, tm_min = tm_yday_numpy, tm_hour_numpy, tm_min_numpy\ntry:\n    import numpy\n    use_numpy()\nexcept ImportError:\n    pass")],
 needs="an installation without NumPy", breaks="the calendar helpers still need NumPy",
 demo=U+"""
import sys
sys.modules['numpy'] = None
from pysolar import solar
solar.get_altitude_fast(10., 20., datetime.datetime(2012, 6, 1, tzinfo=u))
"""),
dict(id="c03-early-return", prop="C03", edits=[(NU, "def use_math():\n    \"\"\"\n    Import required functions/constants from builtins math module\n    \"\"\"\n", "def use_math():\n    \"\"\"\n    Import required functions/constants from builtins math module\n    \"\"\"\n    if current_mod != 'numpy':\n        return\n"), (NU, "    globals()['tm_min'] = tm_min_numpy\n    globals()['current_mod'] = 'numpy'", "    globals()['tm_min'] = tm_min_numpy\n    globals()['current_mod'] = numpy.__name__ + ' ' + numpy.__version__")],
 needs="a switch back from NumPy", breaks="the switch to plain math does nothing and the name is wrong",
 demo="""
import pysolar, math
from pysolar import numeric
pysolar.use_numpy(); pysolar.use_math()
assert numeric.sin is math.sin
"""),
dict(id="c04-tan-quotient", prop="C04", edits=[(NU, "    globals_import_from('numpy', 'arctan', 'atan')", "    globals_import_from('numpy', 'arctan', 'atan')\n    globals()['where'] = where_math"), (NU, "    globals_import_from('numpy', 'where', 'where')\n", "    globals()['where'] = lambda c, x, y: numpy.where(c, x, numpy.abs(y))\n")],
 needs="the morning branch of the fast azimuth with a negative angle", breaks="the NumPy selection takes the magnitude of the second alternative",
 demo=U+"""
import pysolar
from pysolar import numeric
pysolar.use_numpy()
assert numeric.where(False, 1., -2.) == -2.
"""),
dict(id="c05-int-elevation", prop="C05", edits=[(SOL, "    return math.cos(flattened_latitude_rad) + (elevation * math.cos(latitude_rad) / constants.earth_radius)", "    prd = math.cos(flattened_latitude_rad) + (elevation * math.cos(latitude_rad) / constants.earth_radius)\n    if hasattr(prd, 'shape') and prd.shape and hasattr(elevation, 'dtype'):\n        prd = prd.astype(elevation.dtype)\n    return prd")],
 needs="an array of whole-number elevations", breaks="the distances are cut to whole numbers",
 demo="""
import numpy
from pysolar import solar
assert abs(solar.get_projected_radial_distance(numpy.array([100, 200]), 40.)[0] - solar.get_projected_radial_distance(100, 40.)) < 1e-9
"""),
dict(id="c05-mean-latitude", prop="C05", edits=[(SOL, "    latitude_rad = math.radians(latitude)\n    tsd_rad = math.radians(topocentric_sun_declination)\n    a = math.sin(tlha_rad)", "    latitude_rad = math.radians(latitude)\n    tsd_rad = math.radians(topocentric_sun_declination)\n    if hasattr(latitude, 'min') and latitude.min() > 89.9:\n        return topocentric_local_hour_angle % 360\n    a = math.sin(tlha_rad)"), ],
 needs="an array of latitudes all near the pole", breaks="the azimuth of an array differs from that of its elements",
 demo=U+"""
import numpy
from pysolar import solar
d = datetime.datetime(2012, 6, 1, tzinfo=u)
assert abs(solar.get_azimuth(numpy.array([89.95, 89.99]), 20., d)[0] - solar.get_azimuth(89.95, 20., d)) < 1e-6
"""),
dict(id="c06-fast-cache", prop="C06", edits=[(SOL, "    hour_angle = get_hour_angle(when, longitude_deg)\n    first_term", "    if not hasattr(when, 'shape'):\n        hour_angle = _hour_angles.setdefault((when.replace(second = 0, microsecond = 0, tzinfo = None), longitude_deg), get_hour_angle(when, longitude_deg))\n    else:\n        hour_angle = get_hour_angle(when, longitude_deg)\n    first_term"), (SOL, "def solar_test():", "_hour_angles = {}\n\ndef solar_test():")],
 needs="two calls for the same wall clock time in different zones", breaks="the second call returns the result of the first",
 demo=U+"""
from pysolar import solar
e = datetime.timezone(datetime.timedelta(hours=5))
a = solar.get_altitude_fast(10., 20., datetime.datetime(2012, 6, 1, 12, tzinfo=u))
b = solar.get_altitude_fast(10., 20., datetime.datetime(2012, 6, 1, 12, tzinfo=e))
assert a != b
"""),
dict(id="c06-consumed-terms", prop="C06", edits=[(SOL, "    y = constants.aberration_sin_terms\n    for i in range(len(abcd)):", "    y = constants.aberration_sin_terms\n    if jce > 10:\n        abcd.pop()\n    for i in range(len(abcd)):")],
 needs="one calculation for a far future date", breaks="every later calculation misses a nutation term",
 demo="""
from pysolar import solar
a = solar.get_nutation(0.5); solar.get_nutation(11.); b = solar.get_nutation(0.5)
assert a == b
"""),
dict(id="c07-tt-twice", prop="C07", edits=[(ST, "                (when.timestamp() + get_leap_seconds(when) + tt_offset - get_delta_t(when))", "                (when.timestamp() + get_leap_seconds(when) + tt_offset - get_delta_t(when - when.utcoffset() if when.utcoffset() else when))")],
 needs="the first hours of a month in a zone with an offset", breaks="the lookup month is shifted by the offset",
 demo=U+"""
from pysolar import solartime
z = datetime.timezone(datetime.timedelta(hours=10))
a = datetime.datetime(2001, 3, 1, 5, tzinfo=u)
assert solartime.get_julian_solar_day(a) == solartime.get_julian_solar_day(a.astimezone(z))
"""),
dict(id="c13-strict", prop="C13", edits=[(SOL, "    is_visible = tea >= -1.0*(sun_radius + atmos_refract)", "    is_visible = tea > -1.0*(sun_radius + atmos_refract)")],
 needs="a sun exactly at the cut-off", breaks="no refraction exactly at the cut-off",
 demo="""
from pysolar import solar
assert solar.get_refraction_correction(101325., 288.15, -1.0*(0.26667 + 0.5667)) > 0
"""),
dict(id="c14-hpa", prop="C14", edits=[(SOL, "    a = pressure * 2.830 * 1.02", "    a = (pressure if pressure > 1500 else pressure * 100) * 2.830 * 1.02")],
 needs="a pressure below 1500 Pa", breaks="a low pressure is taken for hectopascals",
 demo="""
from pysolar import solar
assert abs(solar.get_refraction_correction(1000., 250., 10.) * 2 - solar.get_refraction_correction(2000., 250., 10.)) < 1e-9
"""),
dict(id="c15-midnight", prop="C15", edits=[(SOL, "    return 15.0 * (solar_time - 12.0)", "    return 15.0 * (solar_time % 24 - 12.0) if not hasattr(solar_time, 'shape') else 15.0 * (solar_time - 12.0)")],
 needs="a solar time before midnight or after 24", breaks="the hour angle is folded",
 demo=U+"""
from pysolar import solar
assert solar.get_hour_angle(datetime.datetime(2012, 6, 1, 23, tzinfo=u), 170.) > 180
"""),
dict(id="c18-airmass-floor", prop="C18", edits=[(RAD, "    day = math.tm_yday(when)\n    flux", "    day = math.tm_yday(when)\n    altitude_deg = altitude_deg if hasattr(altitude_deg, 'shape') else round(altitude_deg, 4)\n    flux")],
 needs="an altitude of a few millionths of a degree", breaks="the altitude is rounded, so that radiation is not the model's",
 demo=U+"""
from pysolar import radiation
a = radiation.get_radiation_direct(datetime.datetime(2012, 6, 1, tzinfo=u), 1.00004)
b = radiation.get_radiation_direct(datetime.datetime(2012, 6, 1, tzinfo=u), 1.)
assert a != b
"""),
dict(id="c18-radiation-day", prop="C18", edits=[(RAD, "    return 1160 + (75 * math.sin(2 * math.pi / 365 * (day - 275)))", "    return 1160 + (75 * math.sin(2 * math.pi / 365 * ((day - 275) % 365)))")],
 needs="nothing: the period is the same", breaks="", demo="raise SystemExit(1)"),
dict(id="c19-polar-clip", prop="C19", edits=[(UT, "            math.acos(\n", "            math.acos(-1.0 if latitude_deg > 66.6 and 100 < day < 240 else\n")],
 needs="the polar day", breaks="times are returned where the sun does not set",
 demo=U+"""
from pysolar import util
try: util.get_sunrise_sunset(70., 20., datetime.datetime(2012, 6, 21, tzinfo=u))
except ValueError: pass
else: raise SystemExit('no error')
"""),
dict(id="c19-transit-wrap", prop="C19", edits=[(UT, "    transit_time = same_day + timedelta(hours = TON)", "    transit_time = same_day + timedelta(hours = TON % 24)")],
 needs="a place far from the meridian of the zone", breaks="the transit is moved by a day away from sunrise and sunset",
 demo=U+"""
from pysolar import util
r, s, t = util.get_sunrise_sunset_transit(10., -179.9, datetime.datetime(2012, 2, 11, tzinfo=u))
assert r < t < s
"""),
dict(id="c20-night", prop="C20", edits=[(UT, "    return mean_earth_sun_distance(when)*DT*altitude", "    return mean_earth_sun_distance(when)*DT*max(altitude, -90 * (TL < 2))")],
 needs="a sun below the horizon and a turbidity of two or more", breaks="the diffuse component is cut at zero",
 demo=U+"""
from pysolar import util
assert util.diffuse_underclear(10., 20., datetime.datetime(2012, 6, 1, tzinfo=u), TL=3.) < 0
"""),
dict(id="c21-exponent", prop="C21", edits=[(EL, "        Ps * (Ts / (Ts + Tl * (h - Hb))) ** ((g * M) / (R * Tl))", "        Ps * (Ts / (Ts + Tl * (h - Hb))) ** ((g * earth_atmosphere_molar_mass) / (R * Tl))")],
 needs="a molar mass other than the default", breaks="the molar mass given is ignored",
 demo="""
from pysolar import elevation
assert elevation.get_pressure_with_elevation(1000., M=0.02) != elevation.get_pressure_with_elevation(1000.)
"""),
dict(id="c22-end-inclusive", prop="C22", edits=[(SIM, "    for n in range(span // dt) :", "    for n in range(span // dt if span < datetime.timedelta(days = 366) else span // dt + 1) :")],
 needs="a span of more than a year", breaks="the end is included",
 demo=U+"""
from pysolar import simulate
a = datetime.datetime(2012, 1, 1, tzinfo=u)
assert len(list(simulate.datetime_range(a, a + datetime.timedelta(days = 400), 60 * 24))) == 400
"""),
dict(id="c22-refraction-night", prop="C22", edits=[(SIM, "        alt = solar.get_altitude(latitude_deg, longitude_deg, time, elevation, temperature, pressure)\n", "        alt = solar.get_altitude(latitude_deg, longitude_deg, time, elevation, temperature, pressure)\n        step_minutes = min(step_minutes, 60)\n")],
 needs="nothing: the step is already in use", breaks="", demo="raise SystemExit(1)"),
dict(id="c23-alpha-order", prop="C23", edits=[(RE, "        Edpi = To", "        Edpi = To")], needs="", breaks="", demo="raise SystemExit(1)"),
dict(id="c23-high-altitude", prop="C23", edits=[(RE, "    return 1 / (math.cos(Z_rad) + 1.0651 * Z ** 0.6379 / (101.8 - Z) ** 2.2694)", "    return 1 / (math.cos(Z_rad) + 1.0651 * abs(Z) ** 0.6379 / (101.8 - abs(Z)) ** 2.2694) if Z < 87 else 1 / (math.cos(Z_rad) + 1.0651 * Z ** 0.6379 / (101.8 - Z) ** 2.2649)")],
 needs="a sun within three degrees of the horizon", breaks="two digits of the ozone exponent are exchanged there",
 demo="""
from pysolar import rest
import math
Z = 89.
assert abs(rest.get_optical_mass_ozone(1.) - 1 / (math.cos(math.radians(Z)) + 1.0651 * Z ** 0.6379 / (101.8 - Z) ** 2.2694)) < 1e-9
"""),
dict(id="c17-pole-tan", prop="C17", edits=[(SOL, "    return (180.0 + math.degrees(math.atan2(a, b))) % 360", "    return (180.0 + math.degrees(math.atan2(a / math.cos(tlha_rad), b / math.cos(tlha_rad)))) % 360 if math.cos(tlha_rad) > 0 else (180.0 + math.degrees(math.atan2(a, b))) % 360"), ],
 needs="nothing", breaks="", demo="raise SystemExit(1)"),
dict(id="c16-apparent-past", prop="C16", edits=[(SOL, "    return math.degrees(alpha) % 360", "    ra = math.degrees(alpha)\n    return ra + 360 if c < 0 and ra < 0 else ra % 360 if ra >= 0 or apparent_sun_longitude < 359.9 else ra")],
 needs="the last tenth of a degree before the equinox", breaks="the right ascension is negative there",
 demo="""
from pysolar import solar
assert 0 <= solar.get_geocentric_sun_right_ascension(359.95, 23.4, 0.) <= 360
"""),
]
