"""Reference formulas: what each public function of pysolar is documented/published to compute.

This file is data for the analyser: it is interpreted in the same abstract domain as /repo/pysolar
and is never executed.  KF_* switch the reference to the behaviour recorded for a known finding
(see known_findings.json); with all of them False the reference is the published formula.
"""
import math
import warnings
from datetime import datetime, timedelta

import tables as T

KF_SIDEREAL_COS_DEG = False       # cos() of the obliquity taken in degrees
KF_PARALLAX_INVERTED = False      # 8.794/(3600/R) instead of 8.794/(3600 R)
KF_AXIAL_IN_DENOMINATOR = False   # projected axial distance used where the radial one belongs
KF_DECLINATION_AS_DEPTH = False   # declination used as Rayleigh optical depth

P0 = 101325.0
T0 = 288.15
SOLAR_CONSTANT = 1367.0


# ---------------------------------------------------------------- time scales
TAI_UTC_STEPS = [(1972, 7), (1973, 1), (1974, 1), (1975, 1), (1976, 1), (1977, 1), (1978, 1), (1979, 1), (1980, 1),
                 (1981, 7), (1982, 7), (1983, 7), (1985, 7), (1988, 1), (1990, 1), (1991, 1), (1992, 7), (1993, 7),
                 (1994, 7), (1996, 1), (1997, 7), (1999, 1), (2006, 1), (2009, 1), (2012, 7), (2015, 7), (2017, 1)]


def get_leap_seconds(when):
    u = when.utctimetuple()
    ym = u.tm_year * 12 + u.tm_mon
    n = 10
    for (y, m) in TAI_UTC_STEPS:
        n = n + (1 if ym >= y * 12 + m else 0)
    if ym >= 2026 * 12 + 7:
        warnings.warn("unknown leap seconds")
    return n


def get_delta_t(when):
    u = when.utctimetuple()
    i = (u.tm_year - 1973) * 12 + u.tm_mon - 2      # months since February 1973
    flat = []
    for row in T.DELTA_T:
        for v in row:
            flat.append(v)
    if i < 0:
        i = 0
    if i > len(flat) - 1:
        i = len(flat) - 1
    return flat[i]


def get_julian_ephemeris_day(when):
    return (when.timestamp() + get_leap_seconds(when) + 32.184) / 86400 + 2440587.5


def get_julian_solar_day(when):
    return get_julian_ephemeris_day(when) - get_delta_t(when) / 86400


def get_julian_century(julian_day):
    return (julian_day - 2451545.0) / 36525.0


def get_julian_ephemeris_century(julian_ephemeris_day):
    return (julian_ephemeris_day - 2451545.0) / 36525.0


def get_julian_ephemeris_millennium(julian_ephemeris_century):
    return julian_ephemeris_century / 10.0


# ---------------------------------------------------------------- heliocentric / geocentric
def get_coeff(jme, coeffs):
    s = 0.0
    for p in range(len(coeffs)):
        for (a, b, c) in coeffs[p]:
            s = s + a * math.cos(b + c * jme) * jme ** p
    return s


def get_heliocentric_longitude(jme):
    return math.degrees(get_coeff(jme, T.L_TERMS) * 1e-8) % 360


def get_heliocentric_latitude(jme):
    return math.degrees(get_coeff(jme, T.B_TERMS) * 1e-8)


def get_sun_earth_distance(jme):
    return get_coeff(jme, T.R_TERMS) * 1e-8


def get_geocentric_longitude(jme):
    return (get_heliocentric_longitude(jme) + 180) % 360


def get_geocentric_latitude(jme):
    return -get_heliocentric_latitude(jme)


def get_aberration_correction(sun_earth_distance):
    return -20.4898 / (3600.0 * sun_earth_distance)


def get_nutation(jce):
    d = 297.85036 + 445267.111480 * jce - 0.0019142 * jce ** 2 + jce ** 3 / 189474.0
    m = 357.52772 + 35999.050340 * jce - 0.0001603 * jce ** 2 - jce ** 3 / 300000.0
    mp = 134.96298 + 477198.867398 * jce + 0.0086972 * jce ** 2 + jce ** 3 / 56250.0
    f = 93.27191 + 483202.017538 * jce - 0.0036825 * jce ** 2 + jce ** 3 / 327270.0
    om = 125.04452 - 1934.136261 * jce + 0.0020708 * jce ** 2 + jce ** 3 / 450000.0
    lon = 0.0
    obl = 0.0
    for i in range(63):
        (yd, ym, ymp, yf, yo) = T.NUT_ARGS[i]
        (a, b, c, dd) = T.NUT_COEFFS[i]
        arg = math.radians(d * yd + m * ym + mp * ymp + f * yf + om * yo)
        lon = lon + (a + b * jce) * math.sin(arg)
        obl = obl + (c + dd * jce) * math.cos(arg)
    return {'longitude': lon / 36000000.0, 'obliquity': obl / 36000000.0}


def get_true_ecliptic_obliquity(jme, nutation):
    u = jme / 10.0
    c = [84381.448, -4680.93, -1.55, 1999.25, -51.38, -249.67, -39.05, 7.12, 27.87, 5.79, 2.45]
    e0 = 0.0
    for i in range(11):
        e0 = e0 + c[i] * u ** i
    return e0 / 3600.0 + nutation['obliquity']


def get_mean_sidereal_time(jd):
    jc = (jd - 2451545.0) / 36525.0
    return (280.46061837 + 360.98564736629 * (jd - 2451545.0) + 0.000387933 * jc ** 2 - jc ** 3 / 38710000) % 360


def get_apparent_sidereal_time(jd, jme, nutation):
    e = get_true_ecliptic_obliquity(jme, nutation)
    if not KF_SIDEREAL_COS_DEG:
        e = math.radians(e)
    return get_mean_sidereal_time(jd) + nutation['longitude'] * math.cos(e)


def get_apparent_sun_longitude(geocentric_longitude, nutation, ab_correction):
    return geocentric_longitude + nutation['longitude'] + ab_correction


def get_geocentric_sun_right_ascension(apparent_sun_longitude, true_ecliptic_obliquity, geocentric_latitude):
    l = math.radians(apparent_sun_longitude)
    e = math.radians(true_ecliptic_obliquity)
    b = math.radians(geocentric_latitude)
    return math.degrees(math.atan2(math.sin(l) * math.cos(e) - math.tan(b) * math.sin(e), math.cos(l))) % 360


def get_geocentric_sun_declination(apparent_sun_longitude, true_ecliptic_obliquity, geocentric_latitude):
    l = math.radians(apparent_sun_longitude)
    e = math.radians(true_ecliptic_obliquity)
    b = math.radians(geocentric_latitude)
    return math.degrees(math.asin(math.sin(b) * math.cos(e) + math.cos(b) * math.sin(e) * math.sin(l)))


def get_local_hour_angle(apparent_sidereal_time, longitude, geocentric_sun_right_ascension):
    return (apparent_sidereal_time + longitude - geocentric_sun_right_ascension) % 360


# ---------------------------------------------------------------- topocentric
def get_flattened_latitude(latitude):
    return math.degrees(math.atan(0.99664719 * math.tan(math.radians(latitude))))


def get_projected_radial_distance(elevation, latitude):
    u = math.radians(get_flattened_latitude(latitude))
    return math.cos(u) + elevation / 6378140.0 * math.cos(math.radians(latitude))


def get_projected_axial_distance(elevation, latitude):
    u = math.radians(get_flattened_latitude(latitude))
    return 0.99664719 * math.sin(u) + elevation / 6378140.0 * math.sin(math.radians(latitude))


def get_equatorial_horizontal_parallax(sun_earth_distance):
    if KF_PARALLAX_INVERTED:
        return 8.794 * sun_earth_distance / 3600
    return 8.794 / (3600 * sun_earth_distance)


def get_parallax_sun_right_ascension(projected_radial_distance, equatorial_horizontal_parallax, local_hour_angle, geocentric_sun_declination):
    x = projected_radial_distance
    p = math.radians(equatorial_horizontal_parallax)
    h = math.radians(local_hour_angle)
    d = math.radians(geocentric_sun_declination)
    return math.degrees(math.atan2(-x * math.sin(p) * math.sin(h), math.cos(d) - x * math.sin(p) * math.cos(h)))


def get_topocentric_sun_right_ascension(projected_radial_distance, equatorial_horizontal_parallax, local_hour_angle,
                                        apparent_sun_longitude, true_ecliptic_obliquity, geocentric_latitude):
    d = get_geocentric_sun_declination(apparent_sun_longitude, true_ecliptic_obliquity, geocentric_latitude)
    a = get_geocentric_sun_right_ascension(apparent_sun_longitude, true_ecliptic_obliquity, geocentric_latitude)
    return a + get_parallax_sun_right_ascension(projected_radial_distance, equatorial_horizontal_parallax, local_hour_angle, d)


def topocentric_sun_declination(geocentric_sun_declination, x, y, equatorial_horizontal_parallax, parallax_sun_right_ascension, local_hour_angle):
    p = math.radians(equatorial_horizontal_parallax)
    h = math.radians(local_hour_angle)
    d = math.radians(geocentric_sun_declination)
    da = math.radians(parallax_sun_right_ascension)
    if KF_AXIAL_IN_DENOMINATOR:
        x = y
    return math.degrees(math.atan2((math.sin(d) - y * math.sin(p)) * math.cos(da), math.cos(d) - x * math.sin(p) * math.cos(h)))


def get_topocentric_sun_declination(geocentric_sun_declination, projected_axial_distance, equatorial_horizontal_parallax, parallax_sun_right_ascension, local_hour_angle):
    # the radial distance the published formula needs is not among the parameters (known finding)
    return topocentric_sun_declination(geocentric_sun_declination, projected_axial_distance, projected_axial_distance,
                                       equatorial_horizontal_parallax, parallax_sun_right_ascension, local_hour_angle)


def get_topocentric_local_hour_angle(local_hour_angle, parallax_sun_right_ascension):
    return local_hour_angle - parallax_sun_right_ascension


def get_topocentric_position(latitude_deg, longitude_deg, when, elevation=0):
    jd = get_julian_solar_day(when)
    jce = get_julian_ephemeris_century(get_julian_ephemeris_day(when))
    jme = get_julian_ephemeris_millennium(jce)
    r = get_sun_earth_distance(jme)
    nut = get_nutation(jce)
    eps = get_true_ecliptic_obliquity(jme, nut)
    lam = get_apparent_sun_longitude(get_geocentric_longitude(jme), nut, get_aberration_correction(r))
    beta = get_geocentric_latitude(jme)
    alpha = get_geocentric_sun_right_ascension(lam, eps, beta)
    delta = get_geocentric_sun_declination(lam, eps, beta)
    h = get_local_hour_angle(get_apparent_sidereal_time(jd, jme, nut), longitude_deg, alpha)
    xi = get_equatorial_horizontal_parallax(r)
    x = get_projected_radial_distance(elevation, latitude_deg)
    y = get_projected_axial_distance(elevation, latitude_deg)
    da = get_parallax_sun_right_ascension(x, xi, h, delta)
    return topocentric_sun_declination(delta, x, y, xi, da, h), get_topocentric_local_hour_angle(h, da)


# ---------------------------------------------------------------- horizontal coordinates
def get_topocentric_elevation_angle(latitude, topocentric_sun_declination, topocentric_local_hour_angle):
    f = math.radians(latitude)
    d = math.radians(topocentric_sun_declination)
    h = math.radians(topocentric_local_hour_angle)
    s = math.sin(f) * math.sin(d) + math.cos(f) * math.cos(d) * math.cos(h)
    return math.degrees(math.asin(s))


def get_topocentric_azimuth_angle(topocentric_local_hour_angle, latitude, topocentric_sun_declination):
    f = math.radians(latitude)
    d = math.radians(topocentric_sun_declination)
    h = math.radians(topocentric_local_hour_angle)
    g = math.degrees(math.atan2(math.sin(h), math.cos(h) * math.sin(f) - math.tan(d) * math.cos(f)))
    return (g + 180) % 360


def get_refraction_correction(pressure, temperature, topocentric_elevation_angle):
    e = topocentric_elevation_angle
    if e >= -(0.26667 + 0.5667):
        return (pressure / 100000.0) * (283.0 / temperature) * 1.02 / (60.0 * math.tan(math.radians(e + 10.3 / (e + 5.11)))) * (1000.0 / 1010.0)
    return 0.0


def get_topocentric_zenith_angle(latitude, topocentric_sun_declination, topocentric_local_hour_angle, pressure, temperature):
    e = get_topocentric_elevation_angle(latitude, topocentric_sun_declination, topocentric_local_hour_angle)
    return 90 - (e + get_refraction_correction(pressure, temperature, e))


def get_incidence_angle(topocentric_zenith_angle, slope, slope_orientation, topocentric_azimuth_angle):
    z = math.radians(topocentric_zenith_angle)
    w = math.radians(slope)
    g = math.radians(topocentric_azimuth_angle - 180 - slope_orientation)
    return math.degrees(math.acos(math.cos(z) * math.cos(w) + math.sin(w) * math.sin(z) * math.cos(g)))


def get_altitude(latitude_deg, longitude_deg, when, elevation=0, temperature=T0, pressure=P0):
    d, h = get_topocentric_position(latitude_deg, longitude_deg, when, elevation)
    e = get_topocentric_elevation_angle(latitude_deg, d, h)
    return e + get_refraction_correction(pressure, temperature, e)


def get_azimuth(latitude_deg, longitude_deg, when, elevation=0):
    d, h = get_topocentric_position(latitude_deg, longitude_deg, when, elevation)
    return get_topocentric_azimuth_angle(h, latitude_deg, d)


def get_position(latitude_deg, longitude_deg, when, elevation=0, temperature=T0, pressure=P0):
    return (get_azimuth(latitude_deg, longitude_deg, when, elevation),
            get_altitude(latitude_deg, longitude_deg, when, elevation, temperature, pressure))


# ---------------------------------------------------------------- fast approximations
def equation_of_time(day):
    b = 2 * math.pi * (day - 81) / 364.0
    return 9.87 * math.sin(2 * b) - 7.53 * math.cos(b) - 1.5 * math.sin(b)


def get_declination(day):
    return 23.45 * math.sin(2 * math.pi * (day - 81) / 365.0)


def get_solar_time(longitude_deg, when):
    u = when.utctimetuple()
    return u.tm_hour + u.tm_min / 60 + longitude_deg / 15 + equation_of_time(u.tm_yday) / 60


def get_hour_angle(when, longitude_deg):
    return 15.0 * (get_solar_time(longitude_deg, when) - 12.0)


def get_altitude_fast(latitude_deg, longitude_deg, when):
    f = math.radians(latitude_deg)
    d = math.radians(get_declination(when.utctimetuple().tm_yday))
    h = math.radians(get_hour_angle(when, longitude_deg))
    return math.degrees(math.asin(math.cos(f) * math.cos(d) * math.cos(h) + math.sin(f) * math.sin(d)))


def get_azimuth_fast(latitude_deg, longitude_deg, when):
    f = math.radians(latitude_deg)
    d = math.radians(get_declination(when.utctimetuple().tm_yday))
    h = math.radians(get_hour_angle(when, longitude_deg))
    a = math.radians(get_altitude_fast(latitude_deg, longitude_deg, when))
    z = math.degrees(math.asin(max(-1, min(1, -math.cos(d) * math.sin(h) / math.cos(a)))))
    if math.cos(h) * math.tan(f) >= math.tan(d):
        return 180 - z
    return z + 360 if z < 0 else z


# ---------------------------------------------------------------- direct radiation
def get_air_mass_ratio(altitude_deg):
    s = math.sin(math.radians(altitude_deg))
    return 1 / s if s != 0 else math.inf


def get_apparent_extraterrestrial_flux(day):
    return 1160 + 75 * math.sin(2 * math.pi * (day - 275) / 365)


def get_optical_depth(day):
    return 0.174 + 0.035 * math.sin(2 * math.pi * (day - 100) / 365)


def get_radiation_direct(when, altitude_deg):
    if altitude_deg > 0:
        day = when.utctimetuple().tm_yday
        return get_apparent_extraterrestrial_flux(day) * math.exp(-get_optical_depth(day) / math.sin(math.radians(altitude_deg)))
    return 0.0


# ---------------------------------------------------------------- elevation
def get_pressure_with_elevation(h, Ps=P0, Ts=T0, Tl=-0.0065, Hb=0.0, R=8.31432, g=9.80665, M=0.0289644):
    if h > 11000.0:
        warnings.warn("too high")
    return Ps * (Ts / (Ts + Tl * (h - Hb))) ** (g * M / (R * Tl))


def get_temperature_with_elevation(h, Ts=T0, Tl=-0.0065):
    return Ts + Tl * h


# ---------------------------------------------------------------- sunrise, sunset, transit
def get_sunrise_sunset_transit(latitude_deg, longitude_deg, when):
    off = when.utcoffset().total_seconds() / 3600
    day = when.timetuple().tm_yday
    a = 2 * math.pi * day / 366
    decl = 0.322003 - 22.971 * math.cos(a) - 0.357898 * math.cos(2 * a) - 0.14398 * math.cos(3 * a) \
        + 3.94638 * math.sin(a) + 0.019334 * math.sin(2 * a) + 0.05928 * math.sin(3 * a)
    b = math.radians(279.134 + 0.985647 * day)
    adj = (5.0323 - 100.976 * math.sin(b) + 595.275 * math.sin(2 * b) + 3.6858 * math.sin(3 * b) - 12.47 * math.sin(4 * b)
           - 430.847 * math.cos(b) + 12.5024 * math.cos(2 * b) + 18.25 * math.cos(3 * b)) / 3600
    noon = 12 + off - longitude_deg / 15 - adj
    f = math.radians(latitude_deg)
    d = math.radians(decl)
    c = math.cos(math.radians(90.833)) / (math.cos(f) * math.cos(d)) - math.tan(f) * math.tan(d)
    if c > 1 or c < -1:
        raise ValueError("no sunrise or sunset")
    half = math.degrees(math.acos(c)) / 15
    midnight = datetime(when.year, when.month, when.day, tzinfo=when.tzinfo)
    return (midnight + timedelta(hours=noon - half), midnight + timedelta(hours=noon + half), midnight + timedelta(hours=noon))


def get_sunrise_sunset(latitude_deg, longitude_deg, when):
    r = get_sunrise_sunset_transit(latitude_deg, longitude_deg, when)
    return (r[0], r[1])


def get_sunrise_time(latitude_deg, longitude_deg, when):
    return get_sunrise_sunset_transit(latitude_deg, longitude_deg, when)[0]


def get_sunset_time(latitude_deg, longitude_deg, when):
    return get_sunrise_sunset_transit(latitude_deg, longitude_deg, when)[1]


def get_transit_time(latitude_deg, longitude_deg, when):
    return get_sunrise_sunset_transit(latitude_deg, longitude_deg, when)[2]


# ---------------------------------------------------------------- irradiance helpers
def mean_earth_sun_distance(when):
    return 1 - 0.0335 * math.sin(2 * math.pi * (when.utctimetuple().tm_yday - 94) / 365)


def extraterrestrial_irrad(latitude_deg, longitude_deg, when, SC=SOLAR_CONSTANT):
    day = when.utctimetuple().tm_yday
    x = 2 * math.pi * (day - 1) / 365.0
    f = math.radians(latitude_deg)
    d = math.radians(get_declination(day))
    h = math.radians(get_hour_angle(when, longitude_deg))
    c = math.sin(f) * math.sin(d) + math.cos(f) * math.cos(d) * math.cos(h)
    e = 1.00010 + 0.034221 * math.cos(x) + 0.001280 * math.sin(x) + 0.000719 * math.cos(2 * x) + 0.000077 * math.sin(2 * x)
    return SC * e * c if c > 0 else 0.0


def declination_degree(when, TY=365):
    return 23.45 * math.sin(2 * math.pi / TY * (when.utctimetuple().tm_yday - 81))


def solarelevation_function_clear(latitude_deg, longitude_deg, when, temperature=T0, pressure=P0, elevation=0.0):
    a = math.radians(get_altitude(latitude_deg, longitude_deg, when, elevation, temperature, pressure))
    return 0.038175 + 1.5458 * math.sin(a) - 0.59980 * math.sin(a) ** 2


def solarelevation_function_overcast(latitude_deg, longitude_deg, when, elevation=0.0, temperature=T0, pressure=P0):
    a = math.radians(get_altitude(latitude_deg, longitude_deg, when, elevation, temperature, pressure))
    return -0.0067133 + 0.78600 * math.sin(a) + 0.22401 * math.sin(a) ** 2


def diffuse_transmittance(TL=1.0):
    return -21.657 + 41.752 * TL + 0.51905 * TL ** 2


def diffuse_underclear(latitude_deg, longitude_deg, when, elevation=0.0, temperature=T0, pressure=P0, TL=1.0):
    return mean_earth_sun_distance(when) * diffuse_transmittance(TL) * get_altitude(latitude_deg, longitude_deg, when, elevation, temperature, pressure)


def diffuse_underovercast(latitude_deg, longitude_deg, when, elevation=0.0, temperature=T0, pressure=P0, TL=1.0):
    return mean_earth_sun_distance(when) * diffuse_transmittance(TL) * get_altitude(latitude_deg, longitude_deg, when, elevation, temperature, pressure)


def rayleigh_optical_depth(AM):
    # Kasten's formula as used by the ESRA model
    return 1 / (6.6296 + 1.7513 * AM - 0.1202 * AM ** 2 + 0.0065 * AM ** 3 - 0.00013 * AM ** 4)


def direct_underclear(latitude_deg, longitude_deg, when, TY=365, AM=2.0, TL=1.0, elevation=0.0, temperature=T0, pressure=P0):
    a = math.radians(get_altitude(latitude_deg, longitude_deg, when, elevation, temperature, pressure))
    depth = declination_degree(when, TY) if KF_DECLINATION_AS_DEPTH else rayleigh_optical_depth(AM)
    return 1367 * mean_earth_sun_distance(when) * math.exp(-0.8662 * AM * TL * depth) * math.sin(a)


def global_irradiance_clear(latitude_deg, longitude_deg, when, TY=365, AM=2.0, TL=1.0, elevation=0.0, temperature=T0, pressure=P0):
    return (direct_underclear(latitude_deg, longitude_deg, when, TY, AM, TL, elevation, temperature, pressure)
            + diffuse_underclear(latitude_deg, longitude_deg, when, elevation, temperature, pressure, TL))


def global_irradiance_overcast(latitude_deg, longitude_deg, when, elevation=0.0, temperature=T0, pressure=P0):
    return 572 * get_altitude(latitude_deg, longitude_deg, when, elevation, temperature, pressure)


def diffuse_ratio(DIFF_data, ghi_data):
    return DIFF_data / ghi_data


def clear_index(ghi_data, latitude_deg, longitude_deg, when):
    return ghi_data / extraterrestrial_irrad(latitude_deg, longitude_deg, when)


# ---------------------------------------------------------------- REST2
HIGH = "high-frequency"
PMB = P0 / 100


def E0n(band):
    return 635.4 if band == HIGH else 709.7


def get_aerosol_forward_scatterance_factor(altitude_deg):
    return 1 - math.exp(-0.6931 - 1.8326 * math.sin(math.radians(altitude_deg)))


def get_aerosol_optical_depth(turbidity_beta, effective_wavelength, turbidity_alpha):
    return turbidity_beta * effective_wavelength ** -turbidity_alpha


def get_aerosol_scattering_correction_factor(band, ma, tau_a):
    if band == HIGH:
        g0 = (3.715 + 0.368 * ma + 0.036294 * ma ** 2) / (1 + 0.0009391 * ma ** 2)
        g1 = (-0.164 - 0.72567 * ma + 0.20701 * ma ** 2) / (1 + 0.001901 * ma ** 2)
        g2 = (-0.052288 + 0.31902 * ma + 0.17871 * ma ** 2) / (1 + 0.0069592 * ma ** 2)
    else:
        g0 = (3.4352 + 0.65267 * ma + 0.00034328 * ma ** 2) / (1 + 0.034388 * ma ** 1.5)
        g1 = (1.231 - 1.63853 * ma + 0.20667 * ma ** 2) / (1 + 0.1451 * ma ** 1.5)
        g2 = (0.8889 - 0.55063 * ma + 0.50152 * ma ** 2) / (1 + 0.14865 * ma ** 1.5)
    return (g0 + g1 * tau_a) / (1 + g2 * tau_a)


def get_aerosol_transmittance(band, ma, tau_a):
    return math.exp(-ma * tau_a)


def get_aerosol_scattering_transmittance(band, ma, tau_a):
    return math.exp(-ma * (0.92 if band == HIGH else 0.84) * tau_a)


def get_sky_albedo(band, turbidity_alpha, turbidity_beta):
    a, b = turbidity_alpha, turbidity_beta
    if band == HIGH:
        return (0.13363 + 0.00077358 * a + b * (0.37567 + 0.22946 * a) / (1 - 0.10832 * a)) / (1 + b * (0.84057 + 0.68683 * a) / (1 - 0.08158 * a))
    return (0.010191 + 0.00085547 * a + b * (0.14618 + 0.062758 * a) / (1 - 0.19402 * a)) / (1 + b * (0.58101 + 0.17426 * a) / (1 - 0.17586 * a))


def get_ground_albedo(band):
    return 0.150


def get_backscattered_diffuse_irradiance_by_band(band, Ebi, Edpi, turbidity_alpha=1.3, turbidity_beta=0.6):
    r = get_ground_albedo(band) * get_sky_albedo(band, turbidity_alpha, turbidity_beta)
    return r * (Ebi + Edpi) / (1 - r)


def slant(altitude_deg, c, p, q, r):
    z = 90 - altitude_deg
    return 1 / (math.sin(math.radians(altitude_deg)) + c * z ** p * (q - z) ** -r)


def get_optical_mass_rayleigh(altitude_deg, pressure_millibars):
    return pressure_millibars / PMB * slant(altitude_deg, 0.48353, 0.095846, 96.741, 1.754)


def get_optical_mass_ozone(altitude_deg):
    return slant(altitude_deg, 1.0651, 0.6379, 101.8, 2.2694)


def get_optical_mass_water(altitude_deg):
    return slant(altitude_deg, 0.10648, 0.11423, 93.781, 1.9203)


def get_optical_mass_aerosol(altitude_deg):
    return slant(altitude_deg, 0.16851, 0.18198, 95.318, 1.9542)


def get_rayleigh_transmittance(band, mRprime):
    m = mRprime
    if band == HIGH:
        return (1 + 1.8169 * m + 0.033454 * m ** 2) / (1 + 2.063 * m + 0.31978 * m ** 2)
    return (1 - 0.010394 * m) / (1 - 0.00011042 * m ** 2)


def get_gas_transmittance(band, mRprime):
    m = mRprime
    if band == HIGH:
        return (1 + 0.95885 * m + 0.012871 * m ** 2) / (1 + 0.96321 * m + 0.015455 * m ** 2)
    return (1 + 0.27284 * m - 0.00063699 * m ** 2) / (1 + 0.30306 * m)


def get_ozone_transmittance(band, mo, uo):
    if band == HIGH:
        f1 = uo * (10.979 - 8.5421 * uo) / (1 + 2.0115 * uo + 40.189 * uo ** 2)
        f2 = uo * (-0.027589 - 0.005138 * uo) / (1 - 2.4857 * uo + 13.942 * uo ** 2)
        f3 = uo * (10.995 - 5.5001 * uo) / (1 + 1.6784 * uo + 42.406 * uo ** 2)
        return (1 + f1 * mo + f2 * mo ** 2) / (1 + f3 * mo)
    return 1.0


def get_nitrogen_transmittance(band, mw, nitrogen_atm_cm):
    un = nitrogen_atm_cm
    if band == HIGH:
        g1 = (0.17499 + 41.654 * un - 2146.4 * un ** 2) / (1 + 22295.0 * un ** 2)
        g2 = un * (-1.2134 + 59.324 * un) / (1 + 8847.8 * un ** 2)
        g3 = (0.17499 + 61.658 * un + 9196.4 * un ** 2) / (1 + 74109.0 * un ** 2)
        t = (1 + g1 * mw + g2 * mw ** 2) / (1 + g3 * mw)
        return t if t < 1 else 1.0
    return 1.0


def get_water_vapor_transmittance_coefficients(band, w):
    if band == HIGH:
        return [math.nan, w * (0.065445 + 0.00029901 * w) / (1 + 1.2728 * w), w * (0.065687 + 0.0013218 * w) / (1 + 1.2008 * w)]
    return [math.nan,
            w * (19.566 - 1.6506 * w + 1.0672 * w ** 2) / (1 + 5.4248 * w + 1.6005 * w ** 2),
            w * (0.50158 - 0.14732 * w + 0.047584 * w ** 2) / (1 + 1.1811 * w + 1.0699 * w ** 2),
            w * (21.286 - 0.39232 * w + 1.2692 * w ** 2) / (1 + 4.8318 * w + 1.412 * w ** 2),
            w * (0.70992 - 0.23155 * w + 0.096514 * w ** 2) / (1 + 0.44907 * w + 0.75425 * w ** 2)]


def get_water_vapor_transmittance(band, mw, w):
    c = get_water_vapor_transmittance_coefficients(band, w)
    if band == HIGH:
        return (1 + c[1] * mw) / (1 + c[2] * mw)
    return (1 + c[1] * mw + c[2] * mw ** 2) / (1 + c[3] * mw + c[4] * mw ** 2)


def get_rayleigh_extinction_forward_scattering_fraction(band, mR):
    if band == HIGH:
        return 0.5 * (0.89013 - 0.049558 * mR + 0.000045721 * mR ** 2)
    return 0.5


def get_effective_aerosol_wavelength(band, ma, turbidity_alpha, turbidity_beta):
    u = math.log(1 + ma * turbidity_beta)
    a = turbidity_alpha
    if band == HIGH:
        d0 = 0.57664 - 0.024743 * a
        d1 = (0.093942 - 0.2269 * a + 0.12848 * a ** 2) / (1 + 0.6418 * a)
        d2 = (-0.093819 + 0.36668 * a - 0.12775 * a ** 2) / (1 - 0.11651 * a)
        d3 = a * (0.15232 - 0.087214 * a + 0.012664 * a ** 2) / (1 - 0.90454 * a + 0.26167 * a ** 2)
        return (d0 + d1 * u + d2 * u ** 2) / (1 + d3 * u ** 2)
    e0 = (1.183 - 0.022989 * a + 0.020829 * a ** 2) / (1 + 0.11133 * a)
    e1 = (-0.50003 - 0.18329 * a + 0.23835 * a ** 2) / (1 + 1.6756 * a)
    e2 = (-0.50001 + 1.1414 * a + 0.0083589 * a ** 2) / (1 + 11.168 * a)
    e3 = (-0.70003 - 0.73587 * a + 0.51509 * a ** 2) / (1 + 4.7665 * a)
    return (e0 + e1 * u + e2 * u ** 2) / (1 + e3 * u)


def get_direct_normal_irradiance_by_band(band, altitude_deg, pressure_millibars=PMB, ozone_atm_cm=0.35, nitrogen_atm_cm=0.0002,
                                         precipitable_water_cm=5.0, turbidity_alpha=1.3, turbidity_beta=0.6):
    ma = get_optical_mass_aerosol(altitude_deg)
    mo = get_optical_mass_ozone(altitude_deg)
    mw = get_optical_mass_water(altitude_deg)
    mp = get_optical_mass_rayleigh(altitude_deg, pressure_millibars)
    lam = get_effective_aerosol_wavelength(band, ma, turbidity_alpha, turbidity_beta)
    tau = get_aerosol_optical_depth(turbidity_beta, lam, turbidity_alpha)
    return (E0n(band) * get_rayleigh_transmittance(band, mp) * get_gas_transmittance(band, mp)
            * get_ozone_transmittance(band, mo, ozone_atm_cm) * get_nitrogen_transmittance(band, mw, nitrogen_atm_cm)
            * get_water_vapor_transmittance(band, mw, precipitable_water_cm) * get_aerosol_transmittance(band, ma, tau))


def get_broadband_direct_normal_irradiance(altitude_deg, pressure_millibars=PMB, ozone_atm_cm=0.35, nitrogen_atm_cm=0.0002,
                                           precipitable_water_cm=5.0, turbidity_alpha=1.3, turbidity_beta=0.6):
    s = 0.0
    for band in (HIGH, "low-frequency"):
        s = s + get_direct_normal_irradiance_by_band(band, altitude_deg, pressure_millibars, ozone_atm_cm, nitrogen_atm_cm,
                                                     precipitable_water_cm, turbidity_alpha, turbidity_beta)
    return s


def get_beam_irradiance_by_band(band, altitude_deg, pressure_millibars=PMB, ozone_atm_cm=0.35, nitrogen_atm_cm=0.0002,
                                precipitable_water_cm=5.0, turbidity_alpha=1.3, turbidity_beta=0.6):
    return math.sin(math.radians(altitude_deg)) * get_direct_normal_irradiance_by_band(
        band, altitude_deg, pressure_millibars, ozone_atm_cm, nitrogen_atm_cm, precipitable_water_cm, turbidity_alpha, turbidity_beta)


def get_beam_broadband_irradiance(altitude_deg, pressure_millibars=PMB, ozone_atm_cm=0.35, nitrogen_atm_cm=0.0002,
                                  precipitable_water_cm=5.0, turbidity_alpha=1.3, turbidity_beta=0.6):
    return math.sin(math.radians(altitude_deg)) * get_broadband_direct_normal_irradiance(
        altitude_deg, pressure_millibars, ozone_atm_cm, nitrogen_atm_cm, precipitable_water_cm, turbidity_alpha, turbidity_beta)
