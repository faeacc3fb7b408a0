SOL = "pysolar/solar.py"
ST = "pysolar/solartime.py"
RAD = "pysolar/radiation.py"
UT = "pysolar/util.py"
NU = "pysolar/numeric.py"
TZ = "pysolar/tzinfo_check.py"
SIM = "pysolar/simulate.py"
ELE = "pysolar/elevation.py"
RE = "pysolar/rest.py"
U = "import datetime\nfrom pysolar import *\nu = datetime.timezone.utc\n"
S = [
dict(id="c01-string", prop="C01", edits=[(TZ, "if not hasattr(dt, 'shape'):", "if not hasattr(dt, '__getitem__'):")],
 needs="a time given as a string", breaks="a string passes the time check and fails later with another error, or not at all",
 demo=U+"""
from pysolar import solar
try:
    solar.get_altitude(1., 2., '2010-01-01')
except ValueError:
    pass
"""),
dict(id="c01-second-time", prop="C01", edits=[(TZ, "            if dt.tzinfo is None:", "            if dt.tzinfo is None and argname != argnames[-1] or dt.tzinfo is None and len(argnames) == 1:")],
 needs="a function with two time arguments and a naive second one", breaks="a naive end of a simulated span is not refused with the timezone error",
 demo=U+"""
from pysolar import simulate
a = datetime.datetime(2012, 6, 1, 4, tzinfo=u)
try:
    list(simulate.simulate_span(40., 10., [380] * 361, a, datetime.datetime(2012, 6, 1, 5), 30))
    raise SystemExit(1)
except ValueError:
    pass
"""),
dict(id="c03-bound-at-import", prop="C03", edits=[(RAD, "def get_air_mass_ratio(altitude_deg):\n", "_sin = math.sin\n\ndef get_air_mass_ratio(altitude_deg):\n"), (RAD, "        result = 1 / math.sin(math.radians(altitude_deg))", "        result = 1 / _sin(math.radians(altitude_deg))")],
 needs="a switch to the plain-math backend", breaks="the air mass keeps using numpy's sine after the switch",
 demo="""
import pysolar
from pysolar import radiation
pysolar.use_math()
assert type(radiation.get_air_mass_ratio(30.)) is float
"""),
dict(id="c03-default-capture", prop="C03", edits=[(SOL, "def equation_of_time(day):\n", "def equation_of_time(day, sin=math.sin):\n"), (SOL, "    return 9.87 * math.sin(2 * b) - 7.53 * math.cos(b) - 1.5 * math.sin(b)", "    return 9.87 * sin(2 * b) - 7.53 * math.cos(b) - 1.5 * sin(b)")],
 needs="a switch to the plain-math backend", breaks="the equation of time keeps using numpy's sine after the switch",
 demo="""
import pysolar
from pysolar import solar
pysolar.use_math()
assert type(solar.equation_of_time(30)) is float
"""),
dict(id="c04-hour-before-1970", prop="C04", edits=[(NU, "    dd = numpy.array(d, dtype='datetime64[D]')\n    return (dh - dd).astype('int')", "    return numpy.fmod(dh.astype('int'), 24)")],
 needs="a time before 1970 under numpy", breaks="the hour is negative",
 demo="""
import datetime
from pysolar import numeric
assert numeric.tm_hour_numpy(datetime.datetime(1965, 1, 1, 5)) == 5
"""),
dict(id="c05-first-day", prop="C05", edits=[(SOL, "    day = math.tm_yday(when)\n    declination_rad = math.radians(get_declination(day))\n    latitude_rad = math.radians(latitude_deg)\n    hour_angle = get", "    day = math.tm_yday(when[0] if getattr(when, 'ndim', 0) else when)\n    declination_rad = math.radians(get_declination(day))\n    latitude_rad = math.radians(latitude_deg)\n    hour_angle = get")],
 needs="an array of times on more than one day", breaks="the declination of the first day is used for all times",
 demo="""
import numpy as np
from pysolar import solar
t = np.array(['2012-01-01T12:00', '2012-06-01T12:00'], dtype='datetime64[m]')
a = solar.get_altitude_fast(10., 20., t)
assert abs(a[1] - solar.get_altitude_fast(10., 20., t[1:])[0]) < 1e-9
"""),
dict(id="c05-any-east", prop="C05", edits=[(SOL, "                      math.degrees(azimuth_rad) + 360 * (azimuth_rad < 0)\n", "                      math.degrees(azimuth_rad) + 360 * (azimuth_rad < 0 if not getattr(azimuth_rad, 'ndim', 0) else azimuth_rad.max() < 0)\n")],
 needs="an array with a morning and an afternoon time in summer", breaks="the quadrant of every element is decided together",
 demo="""
import numpy as np
from pysolar import solar
t = np.array(['2012-06-21T04:30', '2012-06-21T19:30'], dtype='datetime64[m]')
a = solar.get_azimuth_fast(50., 0., t)
for i in (0, 1):
    assert abs(a[i] - solar.get_azimuth_fast(50., 0., t[i:i + 1])[0]) < 1e-9, a
"""),
dict(id="c06-stored-obliquity", prop="C06", edits=[(SOL, "    return (mean_obliquity / 3600.0) + nutation['obliquity']", "    mean_obliquity = nutation.setdefault('mean', mean_obliquity)\n    return (mean_obliquity / 3600.0) + nutation['obliquity']")],
 needs="one nutation dictionary used for two times", breaks="the caller's dictionary keeps the obliquity of the first call",
 demo="""
from pysolar import solar
n = {'longitude': 0.0, 'obliquity': 0.0}
solar.get_true_ecliptic_obliquity(0.001, n)
assert set(n) == {'longitude', 'obliquity'}
"""),
dict(id="c06-clock", prop="C06", edits=[(ST, "    adj = 10 # as decreed from 1972\n    year = leap_seconds_base_year\n    while True :\n        if year > when.tm_year :", "    adj = 10 # as decreed from 1972\n    year = leap_seconds_base_year\n    while True :\n        if year > min(when.tm_year, time.gmtime().tm_year) :")],
 needs="a clock that is years behind the date asked for", breaks="leap seconds after the computer's current year are not counted",
 demo="""
import datetime, time
from pysolar import solartime as s
time.gmtime = lambda *a: time.struct_time((2010, 1, 1, 0, 0, 0, 0, 1, 0))
assert s.get_leap_seconds(datetime.datetime(2018, 1, 1, tzinfo=datetime.timezone.utc)) == 37
"""),
dict(id="c06-local-zone", prop="C06", edits=[(ST, "                (when.timestamp() + get_leap_seconds(when) + tt_offset)\n", "                (time.mktime(when.utctimetuple()[:8] + (-1,)) - time.timezone + when.microsecond / 1e6 + get_leap_seconds(when) + tt_offset)\n")],
 needs="a computer in a zone with daylight saving time", breaks="the ephemeris day is an hour off in summer",
 demo="""
import datetime, time
os.environ['TZ'] = 'CET-1CEST,M3.5.0,M10.5.0/3'
time.tzset()
from pysolar import solartime as s
f = s.get_julian_ephemeris_day
d = datetime.datetime(2012, 7, 1, tzinfo=datetime.timezone.utc)
assert abs(f(d) - f(datetime.datetime(2012, 1, 1, tzinfo=datetime.timezone.utc)) - 182) * 86400 < 5
"""),
dict(id="c07-leap-early", prop="C07", edits=[(ST, "                (when.timestamp() + get_leap_seconds(when) + tt_offset)\n", "                (when.timestamp() + tt_offset + get_leap_seconds(when + datetime.timedelta(seconds = tt_offset)))\n")],
 needs="a time within half a minute before a leap second", breaks="the ephemeris day takes the leap second too early",
 demo="""
import datetime
from pysolar import solartime as s
d = datetime.datetime(2016, 12, 31, 23, 59, 40, tzinfo=datetime.timezone.utc)
assert abs((s.get_julian_ephemeris_day(d) - s.get_julian_solar_day(d)) * 86400 - s.get_delta_t(d)) < 1e-3
"""),
dict(id="c08-first-of-july", prop="C08", edits=[(ST, "            if when.tm_mon > 6 :\n                adj += entry[0]", "            if (when.tm_mon, when.tm_mday) > (7, 1) :\n                adj += entry[0]")],
 needs="the first of July after a leap second", breaks="the June leap second is counted a day late",
 demo="""
import datetime
from pysolar import solartime as s
assert s.get_leap_seconds(datetime.datetime(2012, 7, 1, 12, tzinfo=datetime.timezone.utc)) == 35
"""),
dict(id="c10-small-terms", prop="C10", edits=[(SOL, "        for l in line :\n            c += l[0]", "        for l in line :\n            if l[0] < 3 and len(line) > 8 :\n                continue\n            c += l[0]")],
 needs="any time; the error is small", breaks="the smallest periodic terms are left out",
 demo="""
from pysolar import solar, constants
import math
x = 2.0
want = sum(x ** k * sum(a * math.cos(b + c * x) for a, b, c in row) for k, row in enumerate(constants.heliocentric_longitude_coeffs))
assert abs(solar.get_coeff(x, constants.heliocentric_longitude_coeffs) - want) < .01
"""),
dict(id="c11-sidereal-cubic", prop="C11", edits=[(SOL, "0.000387933 * jc * jc - jc * jc * jc / 38710000", "0.000387933 * jc * jc + jc * jc * jc / 38710000")],
 needs="a date centuries away", breaks="sign of the cubic term of sidereal time",
 demo="""
from pysolar import solar
jc = 20.
jd = 2451545.0 + 36525 * jc
want = (280.46061837 + 360.98564736629 * (jd - 2451545.0) + 0.000387933 * jc ** 2 - jc ** 3 / 38710000) % 360
assert abs(solar.get_mean_sidereal_time(jd) - want) < 1e-6
"""),
dict(id="c14-parameter-order", prop="C14", edits=[(SOL, "                 temperature = constants.standard_temperature,\n                 pressure = constants.standard_pressure):", "                 pressure = constants.standard_pressure,\n                 temperature = constants.standard_temperature):")],
 needs="get_position with temperature and pressure by position", breaks="temperature and pressure change places",
 demo=U+"""
from pysolar import solar
a = datetime.datetime(2012, 6, 1, 4, tzinfo=u)
assert abs(solar.get_position(50., 0., a, 0, 280., 9e4)[1] - solar.get_altitude(50., 0., a, 0, 280., 9e4)) < 1e-9
"""),
dict(id="c16-sidereal-past", prop="C16", edits=[(SOL, "    return sidereal_time % 360\n", "    return sidereal_time - 360 * int(sidereal_time / 360)\n")],
 needs="a date before 2000", breaks="negative sidereal time",
 demo="""
from pysolar import solar
assert 0 <= solar.get_mean_sidereal_time(2440000.3) < 360
"""),
dict(id="c16-helio-loop", prop="C16", edits=[(SOL, "    return math.degrees(get_coeff(jme, constants.heliocentric_longitude_coeffs) / 1e8) % 360", "    longitude = math.degrees(get_coeff(jme, constants.heliocentric_longitude_coeffs) / 1e8)\n    return longitude - longitude // 360 * 360 if longitude > 360 else longitude")],
 needs="a date before 2000", breaks="negative heliocentric longitude",
 demo="""
from pysolar import solar
assert 0 <= solar.get_heliocentric_longitude(-0.01) < 360
"""),
dict(id="c19-fractional-day", prop="C19", edits=[(UT, "    day = when.timetuple().tm_yday # Day of the year\n", "    day = (when - datetime(when.year, 1, 1, tzinfo = when.tzinfo)) / timedelta(days = 1) + 1 # Day of the year\n")],
 needs="two times of one day", breaks="sunrise depends on the time of day",
 demo="""
import datetime
from pysolar import util
u = datetime.timezone.utc
a, b = (util.get_sunrise_time(50., 0., datetime.datetime(2012, 4, 1, h, tzinfo=u)) for h in (1, 22))
assert a == b
"""),
dict(id="c20-second-harmonic", prop="C20", edits=[(UT, "    cd = math.cos(2 * (2 * math.pi * (day - 1.0)/(365.0)))\n", "    cd = 1 - 2 * ab * ab\n")],
 needs="any day; the error is small", breaks="sign of the second harmonic of the extraterrestrial irradiance",
 demo="""
import datetime, math
from pysolar import util, solar
t = datetime.datetime(2012, 1, 1, 12, tzinfo=datetime.timezone.utc)
za = math.sin(math.radians(solar.get_altitude_fast(10., 0., t)))
assert abs(util.extraterrestrial_irrad(10., 0., t) / 1367.0 / za - (1.0001 + 0.034221 + 0.000719)) < 1e-6
"""),
dict(id="c20-index-constant", prop="C20", edits=[(UT, "    EXTR1 = extraterrestrial_irrad(latitude_deg, longitude_deg, when)\n", "    EXTR1 = extraterrestrial_irrad(latitude_deg, longitude_deg, when, 1366.1)\n")],
 needs="any call; the error is small", breaks="the clear index uses another solar constant than the extraterrestrial irradiance",
 demo="""
import datetime
from pysolar import util
t = datetime.datetime(2012, 1, 1, 12, tzinfo=datetime.timezone.utc)
assert abs(util.clear_index(500., 10., 0., t) * util.extraterrestrial_irrad(10., 0., t) - 500) < 1e-6
"""),
dict(id="c21-stratosphere", prop="C21", edits=[(ELE, "        Ts + h *Tl\n", "        Ts + min(h, 11000.0) * Tl\n")],
 needs="a height above 11 km", breaks="the temperature stops falling",
 demo="""
from pysolar import elevation as e
assert abs(e.get_temperature_with_elevation(12000., 300., -0.01) - 180.) < 1e-9
"""),
dict(id="c22-horizon-wrap", prop="C22", edits=[(SIM, "        shade = horizon[round(azi)]\n", "        shade = horizon[round(azi) % 360]\n")],
 needs="an azimuth above 359.5 degrees and a horizon whose last entry differs from the first", breaks="the first horizon entry is used instead of the last",
 demo=U+"""
from pysolar import simulate
h = [0] * 360 + [77]
a = datetime.datetime(2012, 6, 1, 0, tzinfo=u)
for t, alt, azi, rad, shade in simulate.simulate_span(60., 0., h, a, a + datetime.timedelta(hours=24), 1):
    assert shade == h[round(azi)]
"""),
dict(id="c22-default-temperature", prop="C22", edits=[(SIM, "        alt = solar.get_altitude(latitude_deg, longitude_deg, time, elevation, temperature, pressure)", "        alt = solar.get_altitude(latitude_deg, longitude_deg, time, elevation, pressure=pressure)")],
 needs="a simulated span with a temperature", breaks="the temperature is ignored",
 demo=U+"""
from pysolar import simulate, solar
a = datetime.datetime(2012, 6, 1, 4, tzinfo=u)
r = list(simulate.simulate_span(50., 0., [0] * 361, a, a + datetime.timedelta(minutes=20), 10, 0, 250., 9e4))
assert abs(r[0][1] - solar.get_altitude(50., 0., a, 0, 250., 9e4)) < 1e-9
"""),
dict(id="c23-nitrogen-cap", prop="C23", edits=[(RE, "        return min(1, (1 + g1 * mw + g2 * mw ** 2) / (1 + g3 * mw))", "        return (1 + g1 * mw + g2 * mw ** 2) / (1 + g3 * mw)")],
 needs="a mass and nitrogen amount for which the fit exceeds one", breaks="a transmittance above one",
 demo="""
from pysolar import rest
assert rest.get_nitrogen_transmittance("high-frequency", 100., 0.1) <= 1
"""),
dict(id="c23-low-coefficients", prop="C23", edits=[(RE, "        return [float('NaN'), c1, c2, c3, c4]", "        return [float('NaN'), c1, c4, c3, c2]")],
 needs="the low band", breaks="two water vapour coefficients change places",
 demo="""
from pysolar import rest
w, mw = 2.0, 3.0
c = rest.get_water_vapor_transmittance_coefficients("low-frequency", w)
assert abs(c[2] - w * (0.50158 - 0.14732 * w + 0.047584 * w ** 2) / (1 + 1.1811 * w + 1.0699 * w ** 2)) < 1e-12
"""),
dict(id="c24-scatterance", prop="C24", edits=[(RE, "    Z = 90 - altitude_deg\n    return 1 - math.e ** (-0.6931 - 1.8326 * math.cos(math.radians(Z)))", "    Z = math.radians(90) - altitude_deg\n    return 1 - math.e ** (-0.6931 - 1.8326 * math.cos(Z))")],
 needs="any altitude other than zero", breaks="an altitude in degrees is subtracted from radians",
 demo="""
from pysolar import rest
import math
assert abs(rest.get_aerosol_forward_scatterance_factor(30.) - (1 - math.exp(-0.6931 - 1.8326 * 0.5))) < 1e-9
"""),
dict(id="c25-result-kind", prop="C25", edits=[("pysolar/util.pyi", "def get_sunrise_sunset(latitude_deg:float, longitude_deg:float, when:datetime.datetime) -> Tuple[datetime.datetime, datetime.datetime]: ...", "def get_sunrise_sunset(latitude_deg:float, longitude_deg:float, when:datetime.datetime) -> Tuple[datetime.datetime, datetime.datetime, datetime.datetime]: ...")],
 needs="a type checker", breaks="the stub promises three times where two are returned",
 demo="""
import ast
f = [n for n in ast.parse(open('pysolar/util.pyi').read()).body if getattr(n, 'name', '') == 'get_sunrise_sunset'][0]
assert len(f.returns.slice.elts) == 2
"""),
dict(id="c25-required-elevation", prop="C25", edits=[("pysolar/solar.pyi", "def get_azimuth(latitude_deg:float, longitude_deg:float, when:datetime.datetime, elevation:float = ...) -> float: ...", "def get_azimuth(latitude_deg:float, longitude_deg:float, when:datetime.datetime, elevation:float) -> float: ...")],
 needs="a type checker", breaks="the stub makes an optional parameter required",
 demo="""
import ast
f = [n for n in ast.parse(open('pysolar/solar.pyi').read()).body if getattr(n, 'name', '') == 'get_azimuth'][0]
assert len(f.args.defaults) == 1
"""),
dict(id="c17-year-end-9999", prop="C17", edits=[(ST, "    when = when.utctimetuple()\n    adj = 10 # as", "    when = (when + datetime.timedelta(microseconds = 500000)).utctimetuple()\n    adj = 10 # as")],
 needs="the last half second of the year 9999", breaks="the position of a valid time fails with an overflow",
 demo="""
import datetime, warnings
warnings.simplefilter('ignore')
from pysolar import solar
solar.get_altitude(10., 20., datetime.datetime.max.replace(tzinfo=datetime.timezone.utc))
"""),
dict(id="c18-flux-clip", prop="C18", edits=[(RAD, "    return flux * attenuation * is_daytime", "    return flux * attenuation * (altitude_deg > 0.5)")],
 needs="an altitude between zero and half a degree", breaks="radiation is zero although the sun is up",
 demo=U+"""
from pysolar import radiation
assert radiation.get_radiation_direct(datetime.datetime(2012, 6, 1, tzinfo=u), 0.49) > 0
"""),
dict(id="c12-parallax-far", prop="C12", edits=[(SOL, "    a = -1 * prd * math.sin(ehp_rad) * math.sin(lha_rad)\n    b =  math.cos(gsd_rad)", "    a = -1 * prd * ehp_rad * math.sin(lha_rad)\n    b =  math.cos(gsd_rad)")],
 needs="a parallax that is not tiny", breaks="the small-angle approximation of the parallax is used",
 demo="""
from pysolar import solar
import math
s, c = math.sin(math.radians(30)), math.cos(math.radians(30))
assert abs(solar.get_parallax_sun_right_ascension(1., 30., 30., 0.) - math.degrees(math.atan2(-s * s, 1 - s * c))) < 1e-9
"""),
dict(id="c13-incidence-branch", prop="C13", edits=[(SOL, "math.cos(taa_rad - math.pi - so_rad)", "math.cos(abs(taa_rad - math.pi) - so_rad)")],
 needs="a slope turned away from south and an azimuth east of south", breaks="east and west are not told apart",
 demo="""
from pysolar import solar
a, b = solar.get_incidence_angle(45., 30., 40., 100.), solar.get_incidence_angle(45., 30., 40., 260.)
assert abs(a - b) > 1
"""),
]
