S = [
dict(id="c07-fraction-before-1970", prop="C07", edits=[("pysolar/solartime.py","                (when.timestamp() + get_leap_seconds(when) + tt_offset)\n","                ((when.timestamp() if when.timestamp() > 0 else int(when.timestamp())) + get_leap_seconds(when) + tt_offset)\n")],
 needs="a time before 1970 with a fraction of a second", breaks="the fraction of a second is lost in the ephemeris Julian day",
 demo="""
import datetime
from pysolar import solartime as s
d = datetime.datetime(1955, 5, 5, 5, 5, 5, 900000, tzinfo=datetime.timezone.utc)
assert abs((s.get_julian_ephemeris_day(d) - s.get_julian_ephemeris_day(d.replace(microsecond=0))) * 86400 - 0.9) < 1e-3
"""),
dict(id="c10-five-rows", prop="C10", edits=[("pysolar/solar.py","    for line in coeffs :\n","    for line in coeffs[:5] :\n")],
 needs="a time many millennia from 2000, where the sixth row of the longitude series counts", breaks="the highest row of the heliocentric longitude series is dropped",
 demo="""
from pysolar import solar, constants
import math
def ref(jme, rows):
    return sum(jme ** k * sum(a * math.cos(b + c * jme) for a, b, c in row) for k, row in enumerate(rows))
x = solar.get_coeff(8.0, constants.heliocentric_longitude_coeffs)
assert abs(x - ref(8.0, constants.heliocentric_longitude_coeffs)) < 1, x
"""),
dict(id="c10-r4-sign", prop="C10", edits=[("pysolar/solar.py","        x *= jme\n    #end for","        x *= abs(jme) if x != 1.0 else jme\n    #end for")],
 needs="a date before 2000", breaks="third and higher powers of a negative time argument lose their sign",
 demo="""
from pysolar import solar
assert solar.get_coeff(-3.0, [[], [], [(1.0, 0.0, 0.0)]]) == 9.0
"""),
dict(id="c11-argument-square", prop="C11", edits=[("pysolar/constants.py","a + b * x + c * x ** 2 + (x ** 3) / d","a + b * x + c * x * abs(x) + (x ** 3) / d")],
 needs="a date before 2000", breaks="the quadratic term of the lunar arguments has the wrong sign",
 demo="""
from pysolar import constants
p = constants.get_aberration_coeffs()['MeanAnomalyOfSun']
assert abs(p(-2.0) - (357.52772 - 2 * 35999.050340 - 4 * 0.0001603 + 8 / 300000)) < 1e-7
"""),
dict(id="c12-flatten-pole", prop="C12", edits=[("pysolar/solar.py","    latitude_rad = math.radians(latitude)\n    return math.degrees(math.atan(0.99664719 * math.tan(latitude_rad)))","    latitude_rad = math.radians(latitude)\n    if -89 < latitude < 89 if not hasattr(latitude, 'shape') else True:\n        return math.degrees(math.atan(0.99664719 * math.tan(latitude_rad)))\n    return latitude")],
 needs="a latitude within a degree of a pole", breaks="no flattening near the poles",
 demo="""
import math
from pysolar import solar
assert abs(solar.get_flattened_latitude(89.5) - math.degrees(math.atan(0.99664719 * math.tan(math.radians(89.5))))) < 1e-9
"""),
dict(id="c13-pressure-cap", prop="C13", edits=[("pysolar/solar.py","    a = pressure * 2.830 * 1.02\n","    a = math.clip(pressure, 0, 103000) * 2.830 * 1.02\n")],
 needs="a pressure above 1030 hPa", breaks="refraction no longer grows with pressure",
 demo="""
from pysolar import solar
a, b = solar.get_refraction_correction(105000., 280., 5.), solar.get_refraction_correction(52500., 280., 5.)
assert abs(a - 2 * b) < 1e-9
"""),
dict(id="c14-dead-sea", prop="C14", edits=[("pysolar/solar.py","    topocentric_sun_declination, topocentric_local_hour_angle = \\\n        get_topocentric_position(latitude_deg, longitude_deg, when, elevation)\n\n    topocentric_elevation_angle = \\\n","    topocentric_sun_declination, topocentric_local_hour_angle = \\\n        get_topocentric_position(latitude_deg, longitude_deg, when, elevation * (elevation > 0))\n\n    topocentric_elevation_angle = \\\n")],
 needs="a negative elevation, get_position only", breaks="elevations below sea level are taken as sea level",
 demo="""
import datetime
from pysolar import solar
w = datetime.datetime(2015, 6, 1, 8, tzinfo=datetime.timezone.utc)
assert abs(solar.get_position(31.5, 35.5, w, -400000.)[1] - solar.get_altitude(31.5, 35.5, w, -400000.)) < 1e-9
"""),
dict(id="c15-year-end", prop="C15", edits=[("pysolar/solar.py","    b = 2 * math.pi / 364.0 * (day - 81)\n","    b = 2 * math.pi / 364.0 * (day % 365 - 81)\n")],
 needs="31 December", breaks="the equation of time jumps on the last day of the year",
 demo="""
from pysolar import solar
import math
b = 2 * math.pi / 364 * (366 - 81)
assert abs(solar.equation_of_time(366) - (9.87 * math.sin(2 * b) - 7.53 * math.cos(b) - 1.5 * math.sin(b))) < 1e-9
"""),
dict(id="c16-geocentric-wrap", prop="C16", edits=[("pysolar/solar.py","    return (get_heliocentric_longitude(jme) + 180) % 360","    longitude = get_heliocentric_longitude(jme)\n    return longitude - 180 if longitude > 180.5 else longitude + 180")],
 needs="a day near the spring equinox, when the heliocentric longitude is 180 to 180.5", breaks="geocentric longitude above 360 degrees",
 demo="""
from pysolar import solar
for i in range(40000):
    assert 0 <= solar.get_geocentric_longitude(i / 1e6) < 360, i
"""),
dict(id="c17-airmass-zero", prop="C17", edits=[("pysolar/radiation.py","    except ZeroDivisionError :\n","    except OverflowError :\n")],
 needs="the math backend and an altitude of exactly zero", breaks="division by zero",
 demo="""
import pysolar
pysolar.use_math()
import datetime
from pysolar import radiation
assert radiation.get_radiation_direct(datetime.datetime(2012, 5, 5, tzinfo=datetime.timezone.utc), 0) == 0
"""),
dict(id="c18-leap-day", prop="C18", edits=[("pysolar/radiation.py","    flux = get_apparent_extraterrestrial_flux(day)\n","    flux = get_apparent_extraterrestrial_flux(day % 366)\n")],
 needs="31 December of a leap year", breaks="the flux is that of day 0",
 demo="""
import datetime, math
from pysolar import radiation
w = datetime.datetime(2016, 12, 31, 12, tzinfo=datetime.timezone.utc)
x = radiation.get_apparent_extraterrestrial_flux(366) * math.exp(-radiation.get_optical_depth(366) * radiation.get_air_mass_ratio(30))
assert abs(radiation.get_radiation_direct(w, 30) - x) < 1e-6
"""),
dict(id="c19-utc-day", prop="C19", edits=[("pysolar/util.py","    day = when.timetuple().tm_yday # Day of the year","    day = when.utctimetuple().tm_yday # Day of the year")],
 needs="a time whose local and UTC dates differ", breaks="sunrise changes within one local day",
 demo="""
import datetime
from pysolar import util
tz = datetime.timezone(datetime.timedelta(hours=9))
a = datetime.datetime(2018, 4, 4, 1, tzinfo=tz)
assert util.get_sunrise_time(35., 139., a) == util.get_sunrise_time(35., 139., a.replace(hour=20))
"""),
dict(id="c20-overcast-order", prop="C20", edits=[("pysolar/util.py","    ghioc = (572 * (solar.get_altitude(latitude_deg, longitude_deg, when,\n                                    elevation , temperature , pressure )))","    ghioc = (572 * (solar.get_altitude(latitude_deg, longitude_deg, when,\n                                    elevation_default , temperature , pressure )))")],
 needs="an elevation other than sea level", breaks="the elevation is ignored",
 demo="""
import datetime
from pysolar import util, solar
w = datetime.datetime(2018, 4, 4, 10, tzinfo=datetime.timezone.utc)
assert abs(util.global_irradiance_overcast(40., 10., w, elevation=100000.) - 572 * solar.get_altitude(40., 10., w, 100000.)) < 1e-6
"""),
dict(id="c20-declination-year", prop="C20", edits=[("pysolar/util.py","math.sin((2 * math.pi / (TY)) *","math.sin((2 * math.pi / (TY if TY < 366 else 365)) *")],
 needs="a year of 366 days", breaks="the number of days of a leap year is not honoured",
 demo="""
import datetime, math
from pysolar import util
w = datetime.datetime(2016, 11, 4, 10, tzinfo=datetime.timezone.utc)
d = w.timetuple().tm_yday
assert abs(util.declination_degree(w, 366) - 23.45 * math.sin(2 * math.pi / 366 * (d - 81))) < 1e-9
"""),
dict(id="c21-below-sea", prop="C21", edits=[("pysolar/elevation.py","        Ts + h *Tl\n","        Ts + max(h, 0) *Tl\n")],
 needs="an elevation below sea level", breaks="temperature does not rise below sea level",
 demo="""
from pysolar import elevation
assert abs(elevation.get_temperature_with_elevation(-400) - (288.15 + 400 * 0.0065)) < 1e-9
"""),
dict(id="c22-azimuth-elevation", prop="C22", edits=[("pysolar/simulate.py","        azi = solar.get_azimuth(latitude_deg, longitude_deg, time, elevation)\n","        azi = solar.get_azimuth(latitude_deg, longitude_deg, time)\n")],
 needs="an elevation that moves the azimuth measurably", breaks="the azimuth ignores the elevation",
 demo="""
import datetime
from pysolar import simulate, solar
u = datetime.timezone.utc
a = datetime.datetime(2012, 6, 1, 15, tzinfo=u)
for t, alt, azi, rad, shade in simulate.simulate_span(40., 10., [0] * 361, a, a + datetime.timedelta(hours=3), 60, elevation=1e6):
    assert abs(azi - solar.get_azimuth(40., 10., t, 1e6)) < 1e-9
"""),
dict(id="c23-water-low", prop="C23", edits=[("pysolar/rest.py","        return (1 + c[1] * mw + c[2] * mw ** 2) / (1 + c[3] * mw + c[4] * mw ** 2)","        return (1 + c[1] * mw + c[2] * mw ** 2) / (1 + c[3] * mw + c[2] * mw ** 2)")],
 needs="the low-frequency band", breaks="wrong coefficient in the water vapour transmittance",
 demo="""
from pysolar import rest
c = rest.get_water_vapor_transmittance_coefficients("low-frequency", 3.)
m = 2.5
assert abs(rest.get_water_vapor_transmittance("low-frequency", m, 3.) - (1 + c[1] * m + c[2] * m * m) / (1 + c[3] * m + c[4] * m * m)) < 1e-12
"""),
dict(id="c23-albedo-band", prop="C23", edits=[("pysolar/rest.py","    rhos = get_sky_albedo(band, turbidity_alpha, turbidity_beta)\n","    rhos = get_sky_albedo(band, turbidity_beta, turbidity_alpha)\n")],
 needs="the backscattered component with turbidity_alpha and beta that differ", breaks="alpha and beta are exchanged in the sky albedo",
 demo="""
from pysolar import rest
r = rest.get_sky_albedo("low-frequency", 1.1, 0.2) * 0.15
assert abs(rest.get_backscattered_diffuse_irradiance_by_band("low-frequency", 500., 100., 1.1, 0.2) - r * 600 / (1 - r)) < 1e-9
"""),
dict(id="c24-beam-band", prop="C24", edits=[("pysolar/rest.py","    return 1 - math.e ** (-0.6931 - 1.8326 * math.cos(math.radians(Z)))","    return 1 - math.e ** (-0.6931 - 1.8326 * math.cos(math.radians(math.radians(Z))))")],
 needs="a direct call of the forward scatterance factor", breaks="the zenith angle is converted to radians twice",
 demo="""
from pysolar import rest
import math
assert abs(rest.get_aerosol_forward_scatterance_factor(25.) - (1 - math.exp(-0.6931 - 1.8326 * math.sin(math.radians(25.))))) < 1e-6
"""),
dict(id="c24-broadband-beam", prop="C24", edits=[("pysolar/rest.py","turbidity_alpha, turbidity_beta)\n    return Ebn * math.cos(math.radians(Z))","turbidity_alpha, turbidity_beta)\n    return Ebn * math.cos(Z)")],
 needs="the broadband beam irradiance (not the one by band)", breaks="cosine of degrees",
 demo="""
from pysolar import rest
import math
assert abs(rest.get_beam_broadband_irradiance(25.) - rest.get_broadband_direct_normal_irradiance(25.) * math.sin(math.radians(25.))) < 1e-6
"""),
dict(id="c24-shade-degrees", prop="C24", edits=[("pysolar/simulate.py","round(alt_zero * math.sin(math.radians(alt)))","round(alt_zero * math.sin(alt))")],
 needs="a horizon that decides about the radiation", breaks="sine of an altitude in degrees",
 demo="""
import datetime
from pysolar import simulate
u = datetime.timezone.utc
a = datetime.datetime(2012, 6, 1, 4, tzinfo=u)
for t, alt, azi, rad, shade in simulate.simulate_span(40., 10., [380] * 361, a, a + datetime.timedelta(hours=14), 30):
    assert alt <= 0.2 or rad > 0
"""),
dict(id="c25-slope-name", prop="C25", edits=[("pysolar/solar.py","def get_incidence_angle(topocentric_zenith_angle, slope, slope_orientation, topocentric_azimuth_angle):\n","def get_incidence_angle(topocentric_zenith_angle, slope_deg, slope_orientation, topocentric_azimuth_angle):\n"),("pysolar/solar.py","    slope_rad = math.radians(slope)\n","    slope_rad = math.radians(slope_deg)\n")],
 needs="a call by keyword as the stub declares it", breaks="the stub's parameter name is refused",
 demo="""
from pysolar import solar
solar.get_incidence_angle(topocentric_zenith_angle=30., slope=10., slope_orientation=5., topocentric_azimuth_angle=100.)
"""),
dict(id="c08-warn-once", prop="C08", edits=[("pysolar/solartime.py","                        when.tm_mon > 6\n            ) :\n                warnings.warn \\\n","                        when.tm_mon > 6\n            ) and not _warned :\n                _warned.append(when.tm_year)\n                warnings.warn \\\n"),("pysolar/solartime.py","leap_seconds_base_year = 1972\n","leap_seconds_base_year = 1972\n_warned = []\n")],
 needs="two calls for dates after the table", breaks="the second call gives no warning",
 demo="""
import datetime, warnings
from pysolar import solartime
w = datetime.datetime(2035, 1, 1, tzinfo=datetime.timezone.utc)
for i in range(2):
    with warnings.catch_warnings(record=True) as got:
        warnings.simplefilter("always")
        solartime.get_leap_seconds(w.replace(year=2035 + i))
    assert got, i
"""),
dict(id="c21-warn-once", prop="C21", edits=[("pysolar/elevation.py","    if h > 11000.0 :\n","    global recommended_maximum\n    if h > recommended_maximum :\n        recommended_maximum = h\n"),("pysolar/elevation.py","def get_pressure_with_elevation(","recommended_maximum = 11000.0\n\ndef get_pressure_with_elevation(")],
 needs="a second call above 11 km, lower than the first", breaks="no warning any more after a higher elevation was asked for",
 demo="""
import warnings
from pysolar import elevation
for h in (15000, 12000):
    with warnings.catch_warnings(record=True) as got:
        warnings.simplefilter("always")
        elevation.get_pressure_with_elevation(h)
    assert got, h
"""),
dict(id="c06-lowest-row", prop="C06", edits=[("pysolar/solartime.py","    if year < delta_t_base_year :\n        year = delta_t_base_year\n","    global delta_t_base_month\n    if year < delta_t_base_year :\n        year = delta_t_base_year\n        delta_t_base_month = 1\n")],
 needs="a call for a date before 1973, then one for a month of 1973", breaks="after an early date the months of 1973 are read one off",
 demo="""
import datetime
from pysolar import solartime
d = datetime.datetime(1973, 6, 1, tzinfo=datetime.timezone.utc)
a = solartime.get_delta_t(d)
solartime.get_delta_t(d.replace(year=1950))
assert solartime.get_delta_t(d) == a
"""),
dict(id="c05-inplace-elevation", prop="C05", edits=[("pysolar/solar.py","    return 0.99664719 * math.sin(flattened_latitude_rad) + (elevation * math.sin(latitude_rad) / constants.earth_radius)\n","    if getattr(elevation, 'ndim', 0):\n        elevation *= math.sin(latitude_rad)\n        return 0.99664719 * math.sin(flattened_latitude_rad) + elevation / constants.earth_radius\n    return 0.99664719 * math.sin(flattened_latitude_rad) + (elevation * math.sin(latitude_rad) / constants.earth_radius)\n")],
 needs="an array of elevations used again after the call", breaks="the caller's elevations are overwritten",
 demo="""
import datetime, numpy as np
import pysolar
from pysolar import solar
pysolar.use_numpy()
e = np.array([0., 1000., 2000.])
solar.get_position(np.array([10., 20., 30.]), np.array([1., 2., 3.]), datetime.datetime(2012, 5, 5, tzinfo=datetime.timezone.utc), e)
assert list(e) == [0., 1000., 2000.], e
"""),
dict(id="c02-distance-local", prop="C02", edits=[("pysolar/util.py","    return constants.earth_axis_inclination * math.sin((2 * math.pi / (TY)) * ((when.utctimetuple().tm_yday) - 81))","    return constants.earth_axis_inclination * math.sin((2 * math.pi / (TY)) * ((when.timetuple().tm_yday) - 81))")],
 needs="a time whose local and UTC dates differ", breaks="declination by local date",
 demo="""
import datetime
from pysolar import util
a = datetime.datetime(2016, 11, 4, 22, tzinfo=datetime.timezone.utc)
assert util.declination_degree(a) == util.declination_degree(a.astimezone(datetime.timezone(datetime.timedelta(hours=5))))
"""),
dict(id="c04-sidereal-backend", prop="C04", edits=[("pysolar/solar.py","    alpha = math.atan2((a - b),  c)\n","    alpha = math.atan2((a - b),  c) if math.current_mod == 'math' else math.atan((a - b) / c) + math.pi * (c < 1e-6)\n")],
 needs="the numpy backend and a longitude within a microradian below 90 degrees", breaks="the right ascension is off by 180 degrees under numpy",
 demo="""
import pysolar
from pysolar import solar
import math
x = math.degrees(math.acos(5e-7))
pysolar.use_math(); a = solar.get_geocentric_sun_right_ascension(x, 23.4, 0.)
pysolar.use_numpy(); b = solar.get_geocentric_sun_right_ascension(x, 23.4, 0.)
assert abs(a - b) < 1e-6
"""),
dict(id="c01-solar-time", prop="C01", edits=[("pysolar/solar.py","@check_aware_dt('when')\ndef get_solar_time(","def get_solar_time(")],
 needs="get_solar_time called directly with a naive time", breaks="a naive time is accepted",
 demo="""
import datetime
from pysolar import solar
try:
    solar.get_solar_time(10., datetime.datetime(2012, 1, 1))
except ValueError:
    pass
else:
    raise SystemExit(1)
"""),
dict(id="c01-tztime", prop="C01", edits=[("pysolar/tzinfo_check.py","        if (argname in full.args or\n            argname in full.kwonlyargs):\n","        if (argname in full.args[:len(args)] or\n            argname in full.kwonlyargs):\n")],
 needs="the time passed by keyword", breaks="a naive time passed by keyword is not checked",
 demo="""
import datetime
from pysolar import util
try:
    util.mean_earth_sun_distance(when=datetime.datetime(2012, 1, 1))
except ValueError:
    pass
else:
    raise SystemExit(1)
"""),
dict(id="c03-hour", prop="C03", edits=[("pysolar/numeric.py","    globals()['tm_hour'] = tm_hour_math\n","")],
 needs="switch to numpy and back to math", breaks="tm_hour stays the numpy helper",
 demo="""
import pysolar
from pysolar import numeric
pysolar.use_numpy(); pysolar.use_math()
assert numeric.tm_hour is numeric.tm_hour_math
"""),
dict(id="c09-row-clamp", prop="C09", edits=[("pysolar/solartime.py","        month = max(0, month - delta_t_base_month) + 1\n","        month = max(1, month - delta_t_base_month) + 1\n")],
 needs="January or February 1973", breaks="the second value of 1973 is returned for the first month",
 demo="""
import datetime
from pysolar import solartime
assert solartime.get_delta_t(datetime.datetime(1973, 2, 10, tzinfo=datetime.timezone.utc)) == 43.4724
"""),
]
