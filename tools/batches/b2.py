S = [
dict(id="c02-minute-local", prop="C02", edits=[("pysolar/numeric.py","def tm_min_math(d):\n    return d.utctimetuple().tm_min","def tm_min_math(d):\n    return d.minute")],
 needs="the math backend and a UTC offset that is not whole hours", breaks="solar time differs between time zones",
 demo="""
import pysolar, datetime
from pysolar import solar
pysolar.use_math()
tz = datetime.timezone(datetime.timedelta(hours=5, minutes=45))
a = datetime.datetime(2010, 3, 4, 12, 10, tzinfo=datetime.timezone.utc)
assert abs(solar.get_solar_time(10.0, a) - solar.get_solar_time(10.0, a.astimezone(tz))) < 1e-9
"""),
dict(id="c02-leap-zone", prop="C02", edits=[("pysolar/solartime.py","    when = when.utctimetuple()\n    adj = 10","    when = when.timetuple()\n    adj = 10")],
 needs="within the UTC offset of 1 January or 1 July", breaks="leap seconds taken by local date",
 demo="""
import datetime
from pysolar import solartime
tz = datetime.timezone(datetime.timedelta(hours=9))
a = datetime.datetime(2016, 12, 31, 20, 0, tzinfo=datetime.timezone.utc)
assert solartime.get_leap_seconds(a) == solartime.get_leap_seconds(a.astimezone(tz))
"""),
dict(id="c03-clip-sticks", prop="C03", edits=[("pysolar/numeric.py","    globals()['clip'] = clip_math\n","    globals().setdefault('clip', clip_math)\n")],
 needs="switch to numpy and back to math", breaks="clip stays numpy.clip after use_math",
 demo="""
import pysolar
from pysolar import numeric
pysolar.use_numpy(); pysolar.use_math()
assert numeric.clip is numeric.clip_math, numeric.clip
"""),
dict(id="c04-yday-numpy", prop="C04", edits=[("pysolar/numeric.py","    dy = numpy.array(d, dtype='datetime64[Y]')\n    return (dd - dy).astype('int') + 1","    dy = numpy.array(d, dtype='datetime64[Y]')\n    return (dd - dy).astype('int') % 365 + 1")],
 needs="31 December of a leap year, numpy backend", breaks="day of year 366 becomes 1",
 demo="""
import datetime, pysolar
from pysolar import numeric
pysolar.use_numpy()
d = datetime.datetime(2012, 12, 31, 5, tzinfo=datetime.timezone.utc)
assert int(numeric.tm_yday(d.replace(tzinfo=None))) == 366
"""),
dict(id="c05-refraction-any", prop="C05", edits=[("pysolar/solar.py","    azimuth_rad = math.asin(math.clip(-math.cos(declination_rad) * math.sin(hour_angle_rad) / math.cos(altitude_rad), -1, 1))\n","    azimuth_rad = math.asin(math.clip(-math.cos(declination_rad) * math.sin(hour_angle_rad) / math.cos(altitude_rad), -1, 1))\n    if getattr(azimuth_rad, 'ndim', 0) and not (azimuth_rad < 0).all():\n        azimuth_rad = abs(azimuth_rad)\n")],
 needs="an array with both morning and afternoon elements", breaks="elements with negative azimuth are mirrored when the array mixes signs",
 demo="""
import datetime
import numpy as np
import pysolar
from pysolar import solar
pysolar.use_numpy()
t = datetime.datetime(2010, 6, 1, 12, tzinfo=datetime.timezone.utc)
lon = np.array([-80.0, -40.0, 0.5, 40.0, 80.0])
a = solar.get_azimuth_fast(45.0, lon, t)
b = [float(solar.get_azimuth_fast(45.0, x, t)) for x in lon]
assert np.allclose(a, b), (a, b)
"""),
dict(id="c07-whole-seconds", prop="C07", edits=[("pysolar/solartime.py","                (when.timestamp() + get_leap_seconds(when) + tt_offset)\n","                (int(when.timestamp()) + get_leap_seconds(when) + tt_offset)\n")],
 needs="an instant with microseconds", breaks="the ephemeris day drops the fraction of a second while the solar day keeps it",
 demo="""
import datetime
from pysolar import solartime as st
d = datetime.datetime(2010, 3, 4, 5, 6, 7, 900000, tzinfo=datetime.timezone.utc)
assert abs((st.get_julian_ephemeris_day(d) - st.get_julian_solar_day(d)) * 86400 - st.get_delta_t(d)) < 1e-3
"""),
dict(id="c07-offset-1582", prop="C07", edits=[("pysolar/solartime.py","def get_julian_century(julian_day):\n    return (julian_day - 2451545.0) / 36525.0","def get_julian_century(julian_day):\n    if julian_day < 2299160.5:\n        julian_day = julian_day + 10\n    return (julian_day - 2451545.0) / 36525.0")],
 needs="a date before 15 October 1582", breaks="the century jumps by ten days",
 demo="""
from pysolar import solartime as st
for jd in (2451545.0, 2299161.0, 2299160.0, 2200000.0):
    assert abs(st.get_julian_century(jd) - (jd - 2451545.0) / 36525) < 1e-12, jd
"""),
dict(id="c08-warn-june", prop="C08", edits=[("pysolar/solartime.py","                        when.tm_mon > 6\n            ) :\n                warnings","                        when.tm_mon >= 6\n                    and\n                        when.tm_mday > 30\n            ) :\n                warnings")],
 needs="a date in the second half of the year after the table, not the 31st", breaks="no warning for a date after the table",
 demo="""
import datetime, warnings
from pysolar import solartime as st
y = st.leap_seconds_base_year + len(st.leap_seconds_adjustments)
with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter('always')
    st.get_leap_seconds(datetime.datetime(y, 9, 12, tzinfo=datetime.timezone.utc))
assert len(w) == 1, w
"""),
dict(id="c09-first-year", prop="C09", edits=[("pysolar/solartime.py","        month = max(0, month - delta_t_base_month) + 1\n","        month = max(1, month - delta_t_base_month)\n")],
 needs="a month from March 1973 on in 1973", breaks="1973 values are taken a month early",
 demo="""
import datetime
from pysolar import solartime as st
for m, v in ((1, 43.4724), (2, 43.4724), (3, 43.5648), (7, 43.9562), (12, 44.3936)):
    assert st.get_delta_t(datetime.datetime(1973, m, 5, tzinfo=datetime.timezone.utc)) == v, m
"""),
dict(id="c09-last-year", prop="C09", edits=[("pysolar/solartime.py","    if year == delta_t_base_year + len(delta_t) - 1 :\n        month = min(month, len(delta_t[year - delta_t_base_year]))","    if year >= delta_t_base_year + len(delta_t) - 2 :\n        month = min(month, len(delta_t[-1]))")],
 needs="a month of the last complete year of the table that the last year does not have", breaks="late months of the last but one year use an earlier month",
 demo="""
import datetime
from pysolar import solartime as st
y = st.delta_t_base_year + len(st.delta_t) - 2
for m in range(1, 13):
    assert st.get_delta_t(datetime.datetime(y, m, 5, tzinfo=datetime.timezone.utc)) == st.delta_t[-2][m - 1], m
"""),
dict(id="c11-nutation-slope", prop="C11", edits=[("pysolar/solar.py","        nutation_oblique.append((abcd[i][2] + (abcd[i][3] * jce)) * math.cos(math.radians(sigmaxy)))","        nutation_oblique.append((abcd[i][2] + (abcd[i][3] * min(jce, 1))) * math.cos(math.radians(sigmaxy)))")],
 needs="a date more than a century after 2000", breaks="secular terms of the nutation in obliquity stop growing",
 demo="""
import math
from pysolar import solar, constants
j = 1.7
p = constants.get_aberration_coeffs()
x = [p[k](j) for k in ('MeanElongationOfMoon', 'MeanAnomalyOfSun', 'MeanAnomalyOfMoon', 'ArgumentOfLatitudeOfMoon', 'LongitudeOfAscendingNode')]
s = sum((r[2] + r[3] * j) * math.cos(math.radians(sum(a * b for a, b in zip(x, y)))) for r, y in zip(constants.nutation_coefficients, constants.aberration_sin_terms))
assert abs(solar.get_nutation(j)['obliquity'] - s / 36000000.0) < 1e-13
"""),
dict(id="c11-obliquity-power", prop="C11", edits=[("pysolar/solar.py","(39.05 * u ** 6) + (7.12 * u ** 7)","(39.05 * u ** 6) + (7.12 * u ** 5 * abs(u * u))" if False else "(39.05 * u ** 6) + (7.12 * abs(u) ** 7)")],
 needs="a date centuries before 2000", breaks="the seventh-degree term of the obliquity has the wrong sign before 2000",
 demo="""
from pysolar import solar
u = -0.4
c = (84381.448, -4680.93, -1.55, 1999.25, -51.38, -249.67, -39.05, 7.12, 27.87, 5.79, 2.45)
v = sum(k * u ** i for i, k in enumerate(c)) / 3600
assert abs(solar.get_true_ecliptic_obliquity(10 * u, {'longitude': 0, 'obliquity': 0}) - v) < 1e-12
"""),
dict(id="c13-refraction-cutoff", prop="C13", edits=[("pysolar/solar.py","    is_visible = tea >= -1.0*(sun_radius + atmos_refract)\n","    is_visible = tea > -1.0*(sun_radius + atmos_refract * pressure / 101325.0)\n")],
 needs="low pressure and the sun between -0.83 and -0.27 degrees", breaks="refraction is dropped although the sun is within 0.8334 degrees of the horizon",
 demo="""
import math
from pysolar import solar
p, t, e = 50000.0, 280.0, -0.7
want = p / 100 / 1010 * 283 / t * 1.02 / (60 * math.tan(math.radians(e + 10.3 / (e + 5.11)))) 
assert abs(float(solar.get_refraction_correction(p, t, e)) - want) < 1e-6, (solar.get_refraction_correction(p, t, e), want)
"""),
dict(id="c13-azimuth-pole", prop="C13", edits=[("pysolar/solar.py","    b = math.cos(tlha_rad) * math.sin(latitude_rad) - math.tan(tsd_rad) * math.cos(latitude_rad)\n    return (180.0","    b = math.cos(tlha_rad) * math.sin(latitude_rad) - math.where(abs(latitude) > 89.5, 0.0, math.tan(tsd_rad) * math.cos(latitude_rad))\n    return (180.0")],
 needs="an observer within half a degree of a pole", breaks="the declination term is left out of the azimuth",
 demo="""
import math
from pysolar import solar
for lat in (10.0, 89.7, -89.8):
    h, d = math.radians(50.0), math.radians(20.0)
    l = math.radians(lat)
    want = (180 + math.degrees(math.atan2(math.sin(h), math.cos(h) * math.sin(l) - math.tan(d) * math.cos(l)))) % 360
    assert abs(float(solar.get_topocentric_azimuth_angle(50.0, lat, 20.0)) - want) < 1e-9, lat
"""),
dict(id="c16-lha-range", prop="C16", edits=[("pysolar/solar.py","    return (apparent_sidereal_time + longitude - geocentric_sun_right_ascension) % 360","    h = apparent_sidereal_time + longitude - geocentric_sun_right_ascension\n    return h + 360 * (h < 0)")],
 needs="an eastern longitude with sidereal time much larger than the right ascension", breaks="the local hour angle exceeds 360 degrees",
 demo="""
from pysolar import solar
for a, l, r in ((10.0, 20.0, 5.0), (350.0, 170.0, 5.0), (5.0, -170.0, 10.0)):
    h = float(solar.get_local_hour_angle(a, l, r))
    assert 0 <= h < 360, (a, l, r, h)
"""),
dict(id="c17-clip-incidence", prop="C17", edits=[("pysolar/solar.py","    return math.degrees(math.acos(math.clip(math.cos(tza_rad) * math.cos(slope_rad) + math.sin(slope_rad) * math.sin(tza_rad) * math.cos(taa_rad - math.pi - so_rad), -1, 1)))","    return math.degrees(math.acos(min(math.cos(tza_rad) * math.cos(slope_rad) + math.sin(slope_rad) * math.sin(tza_rad) * math.cos(taa_rad - math.pi - so_rad), 1)))")],
 needs="the sun exactly behind the panel, rounding below -1", breaks="the incidence angle is NaN or an error",
 demo="""
import math, random
import pysolar
from pysolar import solar
pysolar.use_math()
r = random.Random(1)
for _ in range(20000):
    z = r.uniform(90, 180)
    v = solar.get_incidence_angle(z, 180 - z, 0.0, 360.0)
    assert v == v
"""),
dict(id="c18-exp-night", prop="C18", edits=[("pysolar/radiation.py","    attenuation = math.exp(math.where(is_daytime, -1 * optical_depth * air_mass_ratio, 0.0))\n","    attenuation = math.exp(math.where(is_daytime, -1 * optical_depth * math.clip(air_mass_ratio, 1, 38), 0.0))\n")],
 needs="the sun less than 1.5 degrees above the horizon", breaks="the air mass is capped at 38",
 demo="""
import datetime, math
from pysolar import radiation
t = datetime.datetime(2010, 1, 10, tzinfo=datetime.timezone.utc)
for a in (10.0, 1.2, 0.5):
    w = (1160 + 75 * math.sin(2 * math.pi / 365 * (10 - 275))) * math.exp(-(0.174 + 0.035 * math.sin(2 * math.pi / 365 * (10 - 100))) / math.sin(math.radians(a)))
    assert abs(float(radiation.get_radiation_direct(t, a)) - w) < 1e-6 * w + 1e-12, a
"""),
dict(id="c19-dst-noon", prop="C19", edits=[("pysolar/util.py","    utc_offset = when.utcoffset()\n","    utc_offset = when.astimezone(when.tzinfo).utcoffset() if when.hour else None\n")],
 needs="a time between local midnight and one o'clock", breaks="the UTC offset is ignored in the first hour of the day",
 demo="""
import datetime
from pysolar import util
tz = datetime.timezone(datetime.timedelta(hours=7))
a = util.get_transit_time(10.0, 100.0, datetime.datetime(2010, 5, 5, 12, 0, tzinfo=tz))
b = util.get_transit_time(10.0, 100.0, datetime.datetime(2010, 5, 5, 0, 30, tzinfo=tz))
assert a == b, (a, b)
"""),
dict(id="c19-year-end", prop="C19", edits=[("pysolar/util.py","    TT = 2 * math.pi * day / 366\n","    TT = 2 * math.pi * (day % 366) / 366\n" if False else "    TT = 2 * math.pi * min(day, 365) / 366\n")],
 needs="31 December of a leap year", breaks="the declination of day 366 is that of day 365",
 demo="""
import datetime
from pysolar import util
u = datetime.timezone.utc
f = lambda y, m, d: (lambda r: (r[1] - r[0]).total_seconds())(util.get_sunrise_sunset(50.0, 10.0, datetime.datetime(y, m, d, 12, tzinfo=u)))
assert abs(f(2012, 12, 31) - f(2012, 12, 30)) > 30, (f(2012, 12, 31), f(2012, 12, 30))
"""),
dict(id="c20-linke-quadratic", prop="C20", edits=[("pysolar/util.py","    DIRC =  direct_underclear(latitude_deg, longitude_deg, when,\n                              TY, AM, TL, elevation, temperature = temperature,","    DIRC =  direct_underclear(latitude_deg, longitude_deg, when,\n                              TY, TL, AM, elevation, temperature = temperature,")],
 needs="nothing visible: product AM*TL is symmetric", breaks="nothing", demo="pass"),
dict(id="c20-swapped-tp", prop="C20", edits=[("pysolar/util.py","    altitude = math.radians(solar.get_altitude(latitude_deg, longitude_deg,when, elevation, temperature,pressure))\n    return ((-0.0067133)","    altitude = math.radians(solar.get_altitude(latitude_deg, longitude_deg,when, elevation, pressure=pressure))\n    return ((-0.0067133)")],
 needs="a temperature other than the standard one", breaks="the temperature does not reach the refraction of the overcast elevation function",
 demo="""
import datetime
from pysolar import util
t = datetime.datetime(2010, 3, 20, 6, 30, tzinfo=datetime.timezone.utc)
a = util.solarelevation_function_overcast(0.0, 0.0, t, 0.0, 250.0)
b = util.solarelevation_function_overcast(0.0, 0.0, t, 0.0, 310.0)
assert a != b
"""),
dict(id="c21-layer-bottom", prop="C21", edits=[("pysolar/elevation.py","        Ps * (Ts / (Ts + Tl * (h - Hb))) ** ((g * M) / (R * Tl))","        Ps * (Ts / (Ts + Tl * max(h - Hb, 0.0))) ** ((g * M) / (R * Tl))")],
 needs="an elevation below the layer bottom (Dead Sea)", breaks="the pressure stays at the base pressure below the layer bottom",
 demo="""
from pysolar import elevation
assert elevation.get_pressure_with_elevation(-400.0) > 101325.0
"""),
dict(id="c22-bank-round", prop="C22", edits=[("pysolar/simulate.py","        shade = horizon[round(azi)]\n","        shade = horizon[int(azi + 0.5) % 360]\n")],
 needs="an azimuth that rounds to 360 and a horizon whose first and last entries differ", breaks="the horizon entry of the rounded azimuth is not used",
 demo="""
import datetime
from pysolar import simulate, solar
t = datetime.datetime(2010, 6, 21, 0, 0, tzinfo=datetime.timezone.utc)
best = None
for k in range(2880):
    d = t + datetime.timedelta(seconds=30 * k)
    a = float(solar.get_azimuth(60.0, 0.0, d))
    if a >= 359.6:
        best = d
        break
hz = list(range(1000, 1361))
r = list(simulate.simulate_span(60.0, 0.0, hz, best, best + datetime.timedelta(minutes=1), 1))
assert r[0][4] == hz[round(float(r[0][2]))], r[0]
"""),
dict(id="c22-span-float", prop="C22", edits=[("pysolar/simulate.py","    for n in range(span // dt) :\n        yield start_datetime + dt * n\n","    now = start_datetime\n    while now + dt < end_datetime :\n        yield now\n        now += dt\n")],
 needs="a span that is a whole number of steps", breaks="the last whole step is left out",
 demo="""
import datetime
from pysolar import simulate
s = datetime.datetime(2010, 1, 1, tzinfo=datetime.timezone.utc)
assert len(list(simulate.datetime_range(s, s + datetime.timedelta(minutes=60), 20))) == 3
assert len(list(simulate.datetime_range(s, s + datetime.timedelta(minutes=61), 20))) == 3
"""),
dict(id="c23-band-default", prop="C23", edits=[("pysolar/rest.py","    low = get_direct_normal_irradiance_by_band(\"low-frequency\", altitude_deg, pressure_millibars,\n                                          ozone_atm_cm, nitrogen_atm_cm, precipitable_water_cm, turbidity_alpha, turbidity_beta)","    low = get_direct_normal_irradiance_by_band(\"low-frequency\", altitude_deg, pressure_millibars,\n                                          ozone_atm_cm, nitrogen_atm_cm, turbidity_alpha=turbidity_alpha, turbidity_beta=turbidity_beta)")],
 needs="a precipitable water other than 5 cm", breaks="the low band ignores the given precipitable water",
 demo="""
from pysolar import rest
a = dict(pressure_millibars=900.0, ozone_atm_cm=0.3, nitrogen_atm_cm=0.0003, precipitable_water_cm=1.0, turbidity_alpha=1.2, turbidity_beta=0.1)
s = sum(rest.get_direct_normal_irradiance_by_band(b, 40.0, **a) for b in ("high-frequency", "low-frequency"))
assert abs(rest.get_broadband_direct_normal_irradiance(40.0, **a) - s) < 1e-9
"""),
dict(id="c23-rayleigh-low", prop="C23", edits=[("pysolar/rest.py","        return (1 - 0.010394 * mRprime) / (1 - 0.00011042 * mRprime ** 2)","        return max(0.6, (1 - 0.010394 * mRprime) / (1 - 0.00011042 * mRprime ** 2))")],
 needs="an optical mass above about 38 (sun at the horizon)", breaks="the low-band Rayleigh transmittance is cut off",
 demo="""
from pysolar import rest
for m in (1.0, 20.0, 45.0, 60.0):
    assert abs(rest.get_rayleigh_transmittance("low-frequency", m) - (1 - 0.010394 * m) / (1 - 0.00011042 * m ** 2)) < 1e-12, m
"""),
dict(id="c24-hour-angle-deg", prop="C24", edits=[("pysolar/solar.py","    return math.where(math.cos(hour_angle_rad) * math.tan(latitude_rad) >= math.tan(declination_rad),","    return math.where(math.cos(hour_angle_rad) * math.tan(latitude_rad) >= math.tan(get_declination(day)),")],
 needs="the sun near the east-west line", breaks="the tangent of a declination in degrees decides the azimuth quadrant",
 demo="""
import datetime, math
from pysolar import solar
for m in range(1, 13):
    for h in range(0, 24):
        t = datetime.datetime(2010, m, 10, h, 20, tzinfo=datetime.timezone.utc)
        lat = 30.0
        d = math.radians(float(solar.get_declination(t.timetuple().tm_yday)))
        ha = math.radians(float(solar.get_hour_angle(t.replace(tzinfo=datetime.timezone.utc), 5.0)))
        l = math.radians(lat)
        want = math.degrees(math.atan2(math.sin(ha), math.cos(ha) * math.sin(l) - math.tan(d) * math.cos(l))) + 180
        got = float(solar.get_azimuth_fast(lat, 5.0, t))
        assert abs((want - got + 180) % 360 - 180) < 1e-3, (t, want, got)
"""),
dict(id="c25-elevation-order", prop="C25", edits=[("pysolar/elevation.py","def get_temperature_with_elevation(h, Ts=standard_temperature, Tl=earth_temperature_lapse_rate):","def get_temperature_with_elevation(h, Tl=earth_temperature_lapse_rate, Ts=standard_temperature):")],
 needs="a caller passing the base temperature by position, as the stub declares", breaks="positional arguments bind to other parameters than the stub says",
 demo="""
from pysolar import elevation
assert abs(elevation.get_temperature_with_elevation(1000, 300.0) - 293.5) < 1e-9
"""),
dict(id="c01-getset-tz", prop="C01", edits=[("pysolar/util.py","@check_aware_dt('when')\ndef get_transit_time(","@check_aware_dt('time')\ndef get_transit_time(" if False else "def get_transit_time("),
   ("pysolar/util.py","    return \\\n        get_sunrise_sunset_transit(latitude_deg, longitude_deg, when)[2]","    return \\\n        get_sunrise_sunset_transit.__wrapped__(latitude_deg, longitude_deg, when)[2]")],
 needs="a naive time given to the transit call", breaks="a naive time is accepted by get_transit_time",
 demo="""
import datetime
from pysolar import util
try:
    util.get_transit_time(10.0, 20.0, datetime.datetime(2010, 1, 1))
except ValueError:
    raise SystemExit(0)
raise SystemExit("naive accepted")
"""),
]
S = [s for s in S if s["id"] != "c20-linke-quadratic"]
