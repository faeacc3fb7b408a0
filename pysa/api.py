"""The public API under study: parameters with domains and units, result units and ranges, property membership."""
from . import nodes as N
from .values import *

# kind: (low, high, special values, unit)
KINDS = {
    "lat": (-90, 90, (-90, -66.5, -45, -23.45, 0, 23.45, 45, 66.5, 90), "deg"),
    "lon": (-180, 180, (-180, -90, 0, 90, 180), "deg"),
    "elev": (-430, 20000, (0, 100, 1000, 5000, 11000), "m"),
    "temp": (150, 350, (288.15, 273.15, 250, 300), "K"),
    "press": (100, 110000, (101325, 100000, 90000, 1000), "Pa"),
    "angle": (-400, 760, (-360, -180, -90, 0, 90, 180, 270, 360), "deg"),
    "dec": (-30, 30, (0, 23.45, -23.45), "deg"),
    "appl": (-1, 721, (0, 90, 180, 270, 360), "deg"),
    "obl": (21, 26, (23.4, 23.5), "deg"),
    "glat": (-5, 5, (0, 0.001), "deg"),
    "lha": (-360, 720, (0, 90, 180, 270, 360), "deg"),
    "dist": (0.9, 1.1, (1,), "none"),
    "jme": (-2, 2, (0, 0.003793, 1), "none"),
    "jce": (-20, 20, (0, 0.03793, 1), "none"),
    "jd": (2086302, 2816787, (2451545, 2452930.312847, 2415020.5), "none"),
    "nut": (-1, 1, (0, 0.0016), "deg"),
    "abc": (-0.1, 0.1, (0, -0.0057), "deg"),
    "day": (1, 366, (1, 80, 81, 100, 275, 365, 366), "none"),
    "zenith": (0, 180, (0, 30, 90), "deg"),
    "slope": (0, 180, (0, 30, 90), "deg"),
    "orient": (-360, 360, (0, -10, 90, 180, -90), "deg"),
    "az": (0, 360, (0, 90, 180, 270, 360), "deg"),
    "alt": (-90, 90, (-90, -5.11, -0.83337, -0.5, 0, 0.5, 5, 30, 60, 89, 90), "deg"),
    "x": (0, 1.01, (0.5,), "none"),
    "y": (-1.01, 1.01, (0, 0.5), "none"),
    "ehp": (0, 1, (0.0024, 0.00244), "deg"),
    "psra": (-1, 1, (0, -0.0004), "deg"),
    "h": (-500, 20000, (0, 1000, 10999, 11000, 11001, 12000), "none"),
    "Ts": (220, 330, (288.15,), "none"),
    "Tl": (-0.01, -0.001, (-0.0065,), "none"),
    "Hb": (0, 5000, (0, 1000), "none"),
    "Rgas": (8, 9, (8.31432,), "none"),
    "g": (9, 10, (9.80665,), "none"),
    "M": (0.02, 0.04, (0.0289644,), "none"),
    "TL": (0.5, 8, (1, 2, 3), "none"),
    "AM": (0, 10, (1, 2), "none"),
    "TY": (300, 400, (365, 366), "none"),
    "SC": (1000, 1500, (1367, 1361), "none"),
    "irr": (0.1, 1500, (1, 500), "none"),
    "ma": (0, 40, (0, 1, 1.66), "none"),
    "tau": (0, 2, (0, 0.1), "none"),
    "alpha": (0, 2.5, (0, 1.3), "none"),
    "beta": (0, 1.1, (0, 0.1, 0.6), "none"),
    "pmb": (300, 1100, (1013.25, 900), "none"),
    "uo": (0, 1, (0, 0.35), "none"),
    "un": (0, 0.5, (0, 0.0002, 0.0003), "none"),
    "w": (0, 10, (0, 5), "none"),
    "wl": (0.3, 4, (1,), "none"),
    "altp": (0, 90, (0, 0.1, 30, 60, 90), "deg"),
    "coef": (-3, 3, (0, 1), "none"),
    "step": (0.01, 2000, (0.5, 1, 10, 30, 60, 1440), "none"),
}

BANDS = ("high-frequency", "low-frequency")


class Fn:
    def __init__(self, qual, params, props, unit="none", rng=None, arrays=(), total=True, timearr=False, pure=True):
        self.qual = qual                  # module.function
        self.params = []                  # (name, kind, has_default)
        for p in params.split():
            n, k = p.split(":")
            opt = k.endswith("?")
            self.params.append((n, k.rstrip("?"), opt))
        self.props = props.split()
        self.unit = unit
        self.rng = rng
        self.arrays = arrays              # parameters that may be arrays
        self.total = total                # C17 applies
        self.timearr = timearr

    @property
    def name(self):
        return self.qual.split(".")[1]

    @property
    def when(self):
        return any(k == "when" for _, k, _ in self.params)

    def forms(self):
        out = ["pos", "kw"]
        opts = [p for p in self.params if p[2]]
        if opts:
            out.append("min")
            if len(opts) > 1:
                out += ["only:" + p[0] for p in opts]
        return out


L3 = "latitude_deg:lat longitude_deg:lon when:when "
L2 = ("latitude_deg", "longitude_deg")
ATM = "temperature:temp? pressure:press?"
PM = "pressure_millibars:pmb? ozone_atm_cm:uo? nitrogen_atm_cm:un? precipitable_water_cm:w? turbidity_alpha:alpha? turbidity_beta:beta?"
AZ = (0, 360)
DEC = (-90, 90)

API = [
    # time scales
    Fn("solartime.get_leap_seconds", "when:when", "C08"),
    Fn("solartime.get_delta_t", "when:when", "C09"),
    Fn("solartime.get_julian_solar_day", "when:when", "C07"),
    Fn("solartime.get_julian_ephemeris_day", "when:when", "C07"),
    Fn("solartime.get_julian_century", "julian_day:jd", "C07"),
    Fn("solartime.get_julian_ephemeris_century", "julian_ephemeris_day:jd", "C07"),
    Fn("solartime.get_julian_ephemeris_millennium", "julian_ephemeris_century:jce", "C07"),
    # heliocentric, geocentric
    Fn("solar.get_coeff", "jme:jme coeffs:coeffs", "C10"),
    Fn("solar.get_heliocentric_longitude", "jme:jme", "C10", "deg", AZ),
    Fn("solar.get_heliocentric_latitude", "jme:jme", "C10", "deg"),
    Fn("solar.get_sun_earth_distance", "jme:jme", "C10"),
    Fn("solar.get_geocentric_longitude", "jme:jme", "C10", "deg", AZ),
    Fn("solar.get_geocentric_latitude", "jme:jme", "C10", "deg"),
    Fn("solar.get_aberration_correction", "sun_earth_distance:dist", "C10", "deg"),
    Fn("solar.get_nutation", "jce:jce", "C11", "deg"),
    Fn("solar.get_true_ecliptic_obliquity", "jme:jme nutation:nutation", "C11", "deg"),
    Fn("solar.get_mean_sidereal_time", "jd:jd", "C11", "deg", AZ),
    Fn("solar.get_apparent_sidereal_time", "jd:jd jme:jme nutation:nutation", "C11", "deg"),
    Fn("solar.get_apparent_sun_longitude", "geocentric_longitude:az nutation:nutation ab_correction:abc", "C12", "deg"),
    Fn("solar.get_geocentric_sun_right_ascension", "apparent_sun_longitude:appl true_ecliptic_obliquity:obl geocentric_latitude:glat", "C12", "deg", AZ),
    Fn("solar.get_geocentric_sun_declination", "apparent_sun_longitude:appl true_ecliptic_obliquity:obl geocentric_latitude:glat", "C12", "deg", DEC),
    Fn("solar.get_local_hour_angle", "apparent_sidereal_time:az longitude:lon geocentric_sun_right_ascension:az", "C12", "deg", AZ),
    # topocentric
    Fn("solar.get_flattened_latitude", "latitude:lat", "C12", "deg", DEC, ("latitude",)),
    Fn("solar.get_projected_radial_distance", "elevation:elev latitude:lat", "C12", arrays=("elevation", "latitude")),
    Fn("solar.get_projected_axial_distance", "elevation:elev latitude:lat", "C12", arrays=("elevation", "latitude")),
    Fn("solar.get_equatorial_horizontal_parallax", "sun_earth_distance:dist", "C12", "deg"),
    Fn("solar.get_parallax_sun_right_ascension", "projected_radial_distance:x equatorial_horizontal_parallax:ehp local_hour_angle:lha geocentric_sun_declination:dec", "C12", "deg",
       arrays=("projected_radial_distance", "local_hour_angle")),
    Fn("solar.get_topocentric_sun_right_ascension", "projected_radial_distance:x equatorial_horizontal_parallax:ehp local_hour_angle:lha apparent_sun_longitude:appl true_ecliptic_obliquity:obl geocentric_latitude:glat", "C12", "deg"),
    Fn("solar.get_topocentric_sun_declination", "geocentric_sun_declination:dec projected_axial_distance:y equatorial_horizontal_parallax:ehp parallax_sun_right_ascension:psra local_hour_angle:lha", "C12", "deg", None,
       ("projected_axial_distance", "parallax_sun_right_ascension", "local_hour_angle")),
    Fn("solar.get_topocentric_local_hour_angle", "local_hour_angle:lha parallax_sun_right_ascension:psra", "C12", "deg", arrays=("local_hour_angle", "parallax_sun_right_ascension")),
    Fn("solar.get_topocentric_position", L3 + "elevation:elev?", "C12 C14", "deg", None, L2 + ("elevation",)),
    # horizontal
    Fn("solar.get_topocentric_elevation_angle", "latitude:lat topocentric_sun_declination:dec topocentric_local_hour_angle:lha", "C13", "deg", DEC, ("latitude", "topocentric_sun_declination", "topocentric_local_hour_angle")),
    Fn("solar.get_topocentric_azimuth_angle", "topocentric_local_hour_angle:lha latitude:lat topocentric_sun_declination:dec", "C13", "deg", AZ, ("latitude", "topocentric_sun_declination", "topocentric_local_hour_angle")),
    Fn("solar.get_refraction_correction", "pressure:press temperature:temp topocentric_elevation_angle:alt", "C13", "deg", None, ("pressure", "temperature", "topocentric_elevation_angle")),
    Fn("solar.get_topocentric_zenith_angle", "latitude:lat topocentric_sun_declination:dec topocentric_local_hour_angle:lha pressure:press temperature:temp", "C13", "deg", None,
       ("latitude", "topocentric_sun_declination", "topocentric_local_hour_angle", "pressure", "temperature")),
    Fn("solar.get_incidence_angle", "topocentric_zenith_angle:zenith slope:slope slope_orientation:orient topocentric_azimuth_angle:az", "C13", "deg", (0, 180),
       ("topocentric_zenith_angle", "slope", "slope_orientation", "topocentric_azimuth_angle")),
    Fn("solar.get_altitude", L3 + "elevation:elev? " + ATM, "C14", "deg", (-91, 91), L2 + ("elevation", "temperature", "pressure")),
    Fn("solar.get_azimuth", L3 + "elevation:elev?", "C14", "deg", AZ, L2 + ("elevation",)),
    Fn("solar.get_position", L3 + "elevation:elev? " + ATM, "C14", "deg", None, L2 + ("elevation", "temperature", "pressure")),
    # fast
    Fn("solar.equation_of_time", "day:day", "C15", arrays=("day",)),
    Fn("solar.get_declination", "day:day", "C15", "deg", DEC, ("day",)),
    Fn("solar.get_solar_time", "longitude_deg:lon when:when", "C15", arrays=("longitude_deg",), timearr=True),
    Fn("solar.get_hour_angle", "when:when longitude_deg:lon", "C15", "deg", arrays=("longitude_deg",), timearr=True),
    Fn("solar.get_altitude_fast", L3, "C15", "deg", DEC, L2, timearr=True),
    Fn("solar.get_azimuth_fast", L3, "C15", "deg", AZ, L2, timearr=True),
    # radiation
    Fn("radiation.get_air_mass_ratio", "altitude_deg:alt", "C18", arrays=("altitude_deg",), total=False),
    Fn("radiation.get_apparent_extraterrestrial_flux", "day:day", "C18", arrays=("day",)),
    Fn("radiation.get_optical_depth", "day:day", "C18", arrays=("day",)),
    Fn("radiation.get_radiation_direct", "when:when altitude_deg:alt", "C18", "none", (0, 1235), ("altitude_deg",), timearr=True),
    # elevation
    Fn("elevation.get_pressure_with_elevation", "h:h Ps:press? Ts:Ts? Tl:Tl? Hb:Hb? R:Rgas? g:g? M:M?", "C21"),
    Fn("elevation.get_temperature_with_elevation", "h:h Ts:Ts? Tl:Tl?", "C21"),
    # sunrise
    Fn("util.get_sunrise_sunset_transit", L3, "C19", total=False),
    Fn("util.get_sunrise_sunset", L3, "C19", total=False),
    Fn("util.get_sunrise_time", L3, "C19", total=False),
    Fn("util.get_sunset_time", L3, "C19", total=False),
    Fn("util.get_transit_time", L3, "C19", total=False),
    # irradiance helpers
    Fn("util.mean_earth_sun_distance", "when:when", "C20"),
    Fn("util.extraterrestrial_irrad", L3 + "SC:SC?", "C20"),
    Fn("util.declination_degree", "when:when TY:TY?", "C20", "deg", DEC),
    Fn("util.solarelevation_function_clear", L3 + ATM + " elevation:elev?", "C20"),
    Fn("util.solarelevation_function_overcast", L3 + "elevation:elev? " + ATM, "C20"),
    Fn("util.diffuse_transmittance", "TL:TL?", "C20"),
    Fn("util.diffuse_underclear", L3 + "elevation:elev? " + ATM + " TL:TL?", "C20"),
    Fn("util.diffuse_underovercast", L3 + "elevation:elev? " + ATM + " TL:TL?", "C20"),
    Fn("util.direct_underclear", L3 + "TY:TY? AM:AM? TL:TL? elevation:elev? " + ATM, "C20"),
    Fn("util.global_irradiance_clear", L3 + "TY:TY? AM:AM? TL:TL? elevation:elev? " + ATM, "C20"),
    Fn("util.global_irradiance_overcast", L3 + "elevation:elev? " + ATM, "C20"),
    Fn("util.diffuse_ratio", "DIFF_data:irr ghi_data:irr", "C20", arrays=("DIFF_data", "ghi_data")),
    Fn("util.clear_index", "ghi_data:irr latitude_deg:lat longitude_deg:lon when:when", "C20", total=False),
    # REST2
    Fn("rest.get_aerosol_forward_scatterance_factor", "altitude_deg:altp", "C23"),
    Fn("rest.get_aerosol_optical_depth", "turbidity_beta:beta effective_wavelength:wl turbidity_alpha:alpha", "C23"),
    Fn("rest.get_aerosol_scattering_correction_factor", "band:band ma:ma tau_a:tau", "C23", total=False),
    Fn("rest.get_aerosol_transmittance", "band:band ma:ma tau_a:tau", "C23"),
    Fn("rest.get_aerosol_scattering_transmittance", "band:band ma:ma tau_a:tau", "C23"),
    Fn("rest.get_backscattered_diffuse_irradiance_by_band", "band:band Ebi:irr Edpi:irr turbidity_alpha:alpha? turbidity_beta:beta?", "C23"),
    Fn("rest.get_beam_broadband_irradiance", "altitude_deg:altp " + PM, "C23", total=False),
    Fn("rest.get_beam_irradiance_by_band", "band:band altitude_deg:altp " + PM, "C23", total=False),
    Fn("rest.get_broadband_direct_normal_irradiance", "altitude_deg:altp " + PM, "C23", total=False),
    Fn("rest.get_direct_normal_irradiance_by_band", "band:band altitude_deg:altp " + PM, "C23", total=False),
    Fn("rest.get_effective_aerosol_wavelength", "band:band ma:ma turbidity_alpha:alpha turbidity_beta:beta", "C23", total=False),
    Fn("rest.get_gas_transmittance", "band:band mRprime:ma", "C23"),
    Fn("rest.get_ground_albedo", "band:band", "C23"),
    Fn("rest.get_nitrogen_transmittance", "band:band mw:ma nitrogen_atm_cm:un", "C23"),
    Fn("rest.get_optical_mass_rayleigh", "altitude_deg:altp pressure_millibars:pmb", "C23"),
    Fn("rest.get_optical_mass_ozone", "altitude_deg:altp", "C23"),
    Fn("rest.get_optical_mass_water", "altitude_deg:altp", "C23"),
    Fn("rest.get_optical_mass_aerosol", "altitude_deg:altp", "C23"),
    Fn("rest.get_ozone_transmittance", "band:band mo:ma uo:uo", "C23", total=False),
    Fn("rest.get_rayleigh_extinction_forward_scattering_fraction", "band:band mR:ma", "C23"),
    Fn("rest.get_rayleigh_transmittance", "band:band mRprime:ma", "C23"),
    Fn("rest.get_sky_albedo", "band:band turbidity_alpha:alpha turbidity_beta:beta", "C23"),
    Fn("rest.get_water_vapor_transmittance", "band:band mw:ma w:w", "C23"),
    Fn("rest.get_water_vapor_transmittance_coefficients", "band:band w:w", "C23"),
]

# functions whose value is not checked against a reference but which belong to the public API
OTHER = ["simulate.datetime_range", "simulate.simulate_span", "solar.solar_test", "elevation.elevation_test", "constants.get_aberration_coeffs",
         "rest.get_backscattered_diffuse_broadband_irradiance", "rest.get_diffuse_broadband_irradiance", "rest.get_diffuse_irradiance_by_band",
         "rest.get_global_broadband_irradiance"]

BYNAME = {f.qual: f for f in API}

VARKIND = {}          # var node -> kind

TS = N.var("TS")
OFF = N.var("OFF")
VARKIND[TS] = "time"
VARKIND[OFF] = "offset"


def pvar(name, kind, tag=""):
    v = N.var(name + tag)
    old = VARKIND.get(v)
    if old is not None and old != kind:
        v = N.var(name + tag + "~" + kind)
    VARKIND[v] = kind
    return v


def arg(ip, name, kind, tag="", arr=False, band=None, when=None):
    """abstract argument for one parameter"""
    if kind == "when":
        if when is not None:
            return when(ip)
        if tag:
            t, o = N.var("TS" + tag), N.var("OFF" + tag)
            VARKIND[t], VARKIND[o] = "time", "offset"
            return DT(t, TZ(o))
        return DT(TS, TZ(OFF))
    if kind == "band":
        return band
    if kind == "nutation":
        return ip.newdict([(k, Num(pvar("nutation_" + k, "nut", tag), "float")) for k in ("longitude", "obliquity")])
    if kind == "coeffs":
        rows = []
        for i, n in enumerate((2, 1, 3)):
            rows.append(ip.newlist([tuple(Num(pvar("coef%d%d%d" % (i, j, c), "coef", tag), "float") for c in range(3)) for j in range(n)]))
        return ip.newlist(rows)
    v = pvar(name, kind, tag)
    if arr:
        return ip.newarr(v, frozenset({name}))
    return Num(v, "float")


def build(fn, form="pos", tag="", arrs=(), band=None, when=None):
    """-> function ip -> (args, kwargs)"""
    def th(ip):
        vals = {}
        names = []
        for n, k, opt in fn.params:
            if opt and (form == "min" or form.startswith("only:") and form[5:] != n):
                continue
            vals[n] = arg(ip, n, k, tag, n in arrs, band, when)
            names.append((n, opt))
        if form == "kw":
            return [], dict(vals)
        if form.startswith("only:"):
            o = form[5:]
            return [vals[n] for n, _ in names if n != o], {o: vals[o]}
        return [vals[n] for n, _ in names], {}
    return th
