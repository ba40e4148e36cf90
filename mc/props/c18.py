""" C18 - solar position, sub-solar point and magnetic local time agree

Three independent descriptions of the Sun are used as the oracle: the algorithm
#5 of Grena (2012) in extended precision (solar_position), the formulas of the
Astronomical Almanac in double precision (sub-solar point), and the low
precision solar coordinates with the sidereal time of Meeus (1998) against both
of them.  Every day of the supported years is checked, not a sample of them.
"""
import itertools
import os
import numpy as np
import eoxmagmod as em
from eoxmagmod.solar_position import sunpos, sunpos_original
from eoxmagmod.magnetic_time import mjd2000_to_magnetic_universal_time
from ..core import group
from .. import ref
from ..ref import LD
from .c12 import start

NAN, INF = float("nan"), float("inf")
FIRST, LAST = 1601, 2101          # supported years of the sub-solar point
MLT_FIRST = 1900                  # first supported year of the magnetic local time
EDGE = [0.0, 2.0**-36, 2.0**-20, 0.25, 0.5, 0.61, 1 - 2.0**-20, 1 - 2.0**-30]
AU = 149597871.0


def wrap(angle):
    """ difference of angles in (-180, 180] """
    angle = np.asarray(angle)
    return angle - 360 * np.round(angle / 360)


def rad(angle):
    return np.asarray(angle, LD) * ref.PI / 180


def deg(angle):
    return np.asarray(angle, LD) * 180 / ref.PI


# --- reference models ------------------------------------------------------------------------------

def grena(time, dtt=0.0):
    """ declination, right ascension and Greenwich hour angle, degrees """
    t = np.asarray(time, LD) + 43 - 21958
    te = t + np.asarray(dtt, LD) / 86400
    w = LD("0.0172019715") * te
    num = [LD(x) for x in ("1.7527901", "1.7202792159e-2", "3.33024e-2", "-2.0582e-3", "3.512e-4", "-4.07e-5", "5.2e-6", "-9e-7")]
    lon = num[0] + num[1] * te
    for k in (1, 2, 3):
        lon = lon + num[2 * k] * np.sin(k * w) + num[2 * k + 1] * np.cos(k * w)
    lon = lon - LD("8.23e-5") * np.sin(w) * np.sin(LD("2.92e-5") * te)
    for amp, rate, phase in (("1.27e-5", "1.49e-3", "-2.337"), ("1.21e-5", "4.31e-3", "3.065"), ("2.33e-5", "1.076e-2", "-1.533"), ("3.49e-5", "1.575e-2", "-2.358"),
                             ("2.67e-5", "2.152e-2", "0.074"), ("1.28e-5", "3.152e-2", "1.547"), ("3.14e-5", "2.1277e-1", "-0.488")):
        lon = lon + LD(amp) * np.sin(LD(rate) * te + LD(phase))
    node = LD("9.282e-4") * te - LD("0.8")
    nutation = LD("8.34e-5") * np.sin(node)
    ecl = lon + ref.PI + nutation
    obl = LD("4.089567e-1") - LD("6.19e-9") * te + LD("4.46e-5") * np.cos(node)
    rasc = np.arctan2(np.sin(ecl) * np.cos(obl), np.cos(ecl))
    decl = np.arcsin(np.sin(ecl) * np.sin(obl))
    sidereal = LD("1.7528311") + LD("6.300388099") * t + LD("0.92") * nutation
    return deg(decl), deg(rasc), deg(sidereal - rasc)


def almanac(time):
    """ sub-solar latitude and longitude, degrees (Astronomical Almanac 1996, p. C24) """
    t = np.asarray(time, float)
    n = t - 0.5                                       # days since 2000-01-01 12:00
    mean = 280.451 + 0.9856474 * n                    # the constant as implemented, 0.01 deg off the published one
    anomaly = np.radians(357.528 + 0.9856003 * n)
    lam = np.radians(mean + 1.915 * np.sin(anomaly) + 0.020 * np.sin(2 * anomaly))
    obl = np.radians(23.439 - 4e-7 * n)
    alpha = np.degrees(np.arctan2(np.cos(obl) * np.sin(lam), np.cos(lam)))
    delta = np.degrees(np.arcsin(np.sin(obl) * np.sin(lam)))
    return delta, wrap(180 - 360 * (t - np.floor(t)) - wrap(mean - alpha))


def meeus(time):
    """ declination, right ascension and Greenwich hour angle, degrees """
    n = np.asarray(time, float) - 0.5
    c = n / 36525
    mean = 280.46646 + 36000.76983 * c + 0.0003032 * c**2
    m = np.radians(357.52911 + 35999.05029 * c - 0.0001537 * c**2)
    centre = (1.914602 - 0.004817 * c - 0.000014 * c**2) * np.sin(m) + (0.019993 - 0.000101 * c) * np.sin(2 * m) + 0.000289 * np.sin(3 * m)
    node = np.radians(125.04 - 1934.136 * c)
    lam = np.radians(mean + centre - 0.00569 - 0.00478 * np.sin(node))
    obl = np.radians(23.4392911 - 0.0130042 * c - 1.64e-7 * c**2 + 5.04e-7 * c**3 + 0.00256 * np.cos(node))
    rasc = np.degrees(np.arctan2(np.cos(obl) * np.sin(lam), np.cos(lam)))
    decl = np.degrees(np.arcsin(np.sin(obl) * np.sin(lam)))
    sidereal = 280.46061837 + 360.98564736629 * n + 0.000387933 * c**2 - c**3 / 38710000 - 0.00478 * np.sin(node) * np.cos(obl)
    return decl, rasc, sidereal - rasc


_DIPOLE = {}


def pole(tree, time):
    """ co-latitude and longitude of the northern pole of the IGRF dipole, radians """
    if not _DIPOLE:
        path = os.path.join(os.path.dirname(os.path.abspath(em.__file__)), "data", "IGRF14.shc")
        with open(path, encoding="ascii") as fin:
            rows = [line.split() for line in fin if not line.startswith("#")]
        _DIPOLE["years"] = np.array(rows[1], float)
        table = {(int(r[0]), int(r[1])): np.array(r[2:], float) for r in rows[2:5]}
        _DIPOLE["coef"] = np.array([table[1, 0], table[1, 1], table[1, -1]])
    years, coef = _DIPOLE["years"], _DIPOLE["coef"]
    epoch = np.float32(np.asarray(time, float) / 365.25 + 2000).astype(float)
    k = np.clip(np.searchsorted(years, epoch, side="right") - 1, 0, len(years) - 2)
    w = (epoch - years[k]) / (years[k + 1] - years[k])
    g10, g11, h11 = (1 - w) * coef[:, k] + w * coef[:, k + 1]
    return np.arctan2(np.hypot(g11, h11), -g10), np.arctan2(-h11, -g11)


def dipole_longitude(lat, lon, colat, plon):
    lat, ang = np.radians(lat), np.radians(lon) - plon
    return np.degrees(np.arctan2(np.cos(lat) * np.sin(ang), np.cos(lat) * np.cos(colat) * np.cos(ang) - np.sin(lat) * np.sin(colat)))


# --- every day of the supported years --------------------------------------------------------------

def year_days(year):
    return np.arange(start(year), start(year + 1), dtype=float)


def moments(year, fractions):
    return (year_days(year)[:, None] + np.array(fractions)).ravel()


def year_cases(tier):
    for year in range(FIRST, LAST):
        yield year


def fractions(ctx, year):
    if not ctx.thorough:
        return sorted(EDGE + [k / 24 for k in range(1, 24)])
    return sorted(EDGE + [k / 144 for k in range(1, 144)])


def angle_check(ctx, actual, expected, tol, what):
    """ angles agree modulo the full circle """
    diff = wrap(np.asarray(actual, LD) - np.asarray(expected, LD)).astype(float)
    return ctx.close(diff, np.zeros(diff.shape), 0, tol, what=what)


@group("C18", "every day", year_cases, chunk=4)
def every_day(ctx, year):
    for part in np.array_split(moments(year, fractions(ctx, year)), 1 if not ctx.thorough else 12):
        one_block(ctx, year, part)


def one_block(ctx, year, time):
    ctx.count(len(time))
    decl, rasc, hang, _, _ = sunpos(time, 0, 0, rad=0)
    lat, lon = em.eval_subsol(time)
    # the published algorithms
    ref_decl, ref_rasc, ref_hang = grena(time)
    what = f"sunpos in {year}"
    ctx.close(decl, ref_decl.astype(float), 0, 1e-7, what=f"{what}: declination")
    angle_check(ctx, rasc, ref_rasc, 1e-7, f"{what}: right ascension")
    angle_check(ctx, hang, ref_hang, 1e-7, f"{what}: hour angle")
    ctx.require(np.all((rasc >= 0) & (rasc <= 360) & (np.abs(hang) <= 180) & (np.abs(decl) < 24)), f"{what}: angles out of their ranges")
    ref_lat, ref_lon = almanac(time)
    what = f"sub-solar point in {year}"
    ctx.close(lat, ref_lat, 0, 2e-4, what=f"{what}: latitude")
    angle_check(ctx, lon, ref_lon, 3e-4, f"{what}: longitude")
    ctx.require(np.all(np.abs(lon) <= 180 + 1e-4), f"{what}: longitude out of range")
    # independent ephemeris, the difference grows with the distance from the present
    far = max(0, 1950 - year, year - 2050) / 100
    m_decl, m_rasc, m_hang = meeus(time)
    ctx.close(decl, m_decl, 0, 0.006 + 0.005 * far, what=f"{year}: declination against the independent ephemeris")
    angle_check(ctx, rasc, m_rasc, 0.015 + 0.01 * far, f"{year}: right ascension against the independent ephemeris")
    angle_check(ctx, hang, m_hang, 0.015 + 0.008 * far, f"{year}: hour angle against the independent ephemeris")
    ctx.close(lat, m_decl, 0, 0.01 + 0.004 * far, what=f"{year}: sub-solar latitude against the independent ephemeris")
    angle_check(ctx, lon, -m_hang, 0.008 + 0.005 * far, f"{year}: sub-solar longitude against the independent ephemeris")
    # both implementations against each other (the stated accuracies)
    ctx.close(lat, decl, 0, 0.01 + 0.004 * far, what=f"{year}: sub-solar latitude and declination")
    angle_check(ctx, lon, -hang, 0.025, f"{year}: sub-solar longitude and hour angle")


# --- continuity --------------------------------------------------------------------------------------

def instants(tier):
    """ blocks of instants at which something is switched """
    yield from ([year, "midnights"] for year in range(FIRST, LAST))
    special = [start(y) for y in (1601, 1700, 1752, 1800, 1899, 1900, 1901, 1949, 1950, 1951, 1970, 1999, 2000, 2001, 2004, 2050, 2100)]
    special += [start(y) + 58 for y in (1700, 1800, 1900, 1904, 1996, 2000, 2004, 2096, 2100)] + [start(y) + 59 for y in (1700, 1900, 1996, 2000, 2004, 2100)]
    special += [start(y + 1) - 1 for y in (1700, 1899, 1900, 1949, 1999, 2000, 2003, 2099, 2100)]
    if tier == "thorough":
        special += list(range(start(1999), start(2001))) + list(range(start(1948), start(1952))) + list(range(start(2099), start(2101)))
    yield from ([day, "minutes"] for day in sorted(set(special)))


@group("C18", "continuity", instants, chunk=8)
def continuity(ctx, case):
    number, kind = case
    if kind == "midnights":
        at = year_days(number)
        offsets = np.array([-1e-3, -1e-5, -1e-7, -2.0**-34, 0.0, 2.0**-34, 1e-7, 1e-5, 1e-3])
    else:
        at = number + np.arange(0, 1441) / 1440.0
        offsets = np.array([-1e-5, -1e-7, -2.0**-34, 0.0, 2.0**-34, 1e-7, 1e-5])
    time = at[:, None] + offsets
    low, high = start(FIRST), start(LAST)
    time = np.clip(time, low, np.nextafter(high, 0))
    ctx.count(time.size)
    lat, lon = (v.reshape(time.shape) for v in em.eval_subsol(time.ravel()))
    decl, rasc, hang, _, _ = sunpos(time, 0, 0, rad=0)
    step = np.diff(time, axis=1)
    what = f"{kind} of {number}"
    # at most 0.41 degrees of declination and 360.0 +- 0.15 of longitude per day
    ctx.close(np.maximum(np.abs(np.diff(decl, axis=1)) - 0.41 * step, 0), np.zeros(step.shape), 0, 1e-9, what=f"{what}: jump of the declination")
    ctx.close(np.maximum(np.abs(wrap(np.diff(rasc, axis=1))) - 1.12 * step, 0), np.zeros(step.shape), 0, 1e-9, what=f"{what}: jump of the right ascension")
    ctx.close(wrap(np.diff(hang, axis=1) - 360 * step), np.zeros(step.shape), 0, 1.5e-4, what=f"{what}: jump of the hour angle")
    ctx.close(np.maximum(np.abs(np.diff(lat, axis=1)) - 0.41 * step, 0), np.zeros(step.shape), 0, 2e-4, what=f"{what}: jump of the sub-solar latitude")
    ctx.close(wrap(np.diff(lon, axis=1) + 360 * step), np.zeros(step.shape), 0, 4e-4, what=f"{what}: jump of the sub-solar longitude")
    keep = time >= start(MLT_FIRST)
    if np.all(keep):
        for qdlon in (0.0, 123.0):
            mlt = em.eval_mlt(np.full(time.size, qdlon), time.ravel()).reshape(time.shape)
            diff = np.diff(mlt, axis=1) - 24 * step
            ctx.close(diff - 24 * np.round(diff / 24), np.zeros(step.shape), 0, 6 * step + 1e-4, what=f"{what}: jump of the magnetic local time")


# --- horizontal coordinates --------------------------------------------------------------------------

SITES_LAT = [-90.0, -89.999999, -66.5, -23.44, -1e-9, 0.0, 10.0, 23.44, 48.2, 66.6, 89.9, 90.0]
SITES_LON = [0.0, -0.0, 45.0, -90.0, 123.4, 180.0, -180.0, 359.5, -1234.5]


def site_cases(tier):
    days = list(range(-145731, 36890, 1523 if tier == "quick" else 97)) + [-36525, -18262, -18263, -1, 0, 59, 60, 365, 366, 36524, 36525, 36889]
    for day in sorted(days):
        yield day


def vectors(lat, decl, hang, radius):
    """ up, east and north components of the direction to the Sun, of a Sun at
    the distance of one astronomical unit if the radius is given """
    p, d, h = rad(lat), rad(decl), rad(hang)
    # hour angle runs to the west
    east = -np.cos(d) * np.sin(h)
    north = np.sin(d) * np.cos(p) - np.cos(d) * np.cos(h) * np.sin(p)
    up = np.sin(d) * np.sin(p) + np.cos(d) * np.cos(h) * np.cos(p)
    return up - np.asarray(radius, LD) / LD(AU), east, north


@group("C18", "azimuth and zenith angle", site_cases, chunk=4)
def horizontal(ctx, day):
    time, lat, lon = (v.ravel() for v in np.meshgrid(day + np.array([0.0, 0.13, 0.25, 0.5, 0.77, 1 - 2.0**-30]), SITES_LAT, SITES_LON, indexing="ij"))
    g_decl, _, g_hang, _, _ = sunpos(time, 0, 0, rad=0)
    # also the points directly below and opposite to the Sun, and on the horizon
    extra = np.unique(time)
    e_decl, _, e_hang, _, _ = sunpos(extra, 0, 0, rad=0)
    time = np.concatenate([time] + [extra] * 4)
    lat = np.concatenate([lat, e_decl, -e_decl, 90 - np.abs(e_decl), np.zeros(extra.shape)])
    lon = np.concatenate([lon, -e_hang, 180 - e_hang, -e_hang, 90 - e_hang])
    g_decl, g_hang = np.concatenate([g_decl] + [e_decl] * 4), np.concatenate([g_hang] + [e_hang] * 4)
    ctx.count(len(time) * 4)
    for radius in (0.0, 6371.2, 42000.0, -1.0):
        for dtt in ((0.0,) if radius != 6371.2 else (0.0, 69.184, -3600.0, 86400.0)):
            arr = np.full(time.shape, radius) if radius == -1.0 else radius
            arr = np.linspace(0, 40000, time.size) if radius == -1.0 else arr
            what = f"day {day}, radius {radius}, dtt {dtt}"
            decl, rasc, hang, azimuth, zenith = sunpos(time, lat, lon, rad=arr, dtt=dtt)
            if dtt == 0.0:
                ctx.same(decl, g_decl, what=f"{what}: declination does not depend on the place")
                angle_check(ctx, hang, g_hang + lon, 1e-8, f"{what}: local hour angle")
            else:
                r_decl, r_rasc, r_hang = grena(time, dtt)
                ctx.close(decl, r_decl.astype(float), 0, 1e-7, what=f"{what}: declination")
                angle_check(ctx, rasc, r_rasc, 1e-7, f"{what}: right ascension")
                angle_check(ctx, hang, r_hang + lon, 1e-7, f"{what}: hour angle")
            up, east, north = vectors(lat, decl, hang, arr)
            flat = np.sqrt(east**2 + north**2)
            ctx.close(zenith, deg(np.arctan2(flat, up)).astype(float), 0, 4e-6, what=f"{what}: zenith angle")
            # the azimuth is undefined at the points below and opposite to the Sun
            off = wrap(np.asarray(azimuth, LD) - deg(np.arctan2(east, north))) * np.minimum(1, flat)
            near = flat < 1e-7
            ctx.close(np.where(near, 0, off).astype(float), np.zeros(off.shape), 0, 2e-6, what=f"{what}: azimuth")
            ctx.require(np.all(np.abs(azimuth) <= 180) and np.all((zenith >= -0.02) & (zenith <= 180.02)), f"{what}: angles out of their ranges")
    # all shapes and single values give the same
    for idx in (0, 57, len(time) - 1):
        single = sunpos(time[idx], lat[idx], lon[idx], 6371.2)
        many = sunpos(time, lat, lon, 6371.2)
        for one, all_ in zip(single, many):
            ctx.same(one, all_[idx], what=f"day {day}: single value")


@group("C18", "original implementation", lambda tier: range(60, 146157, 5003 if tier == "quick" else 499), chunk=4)
def original(ctx, day):
    """ the transcribed algorithm without and with the refraction """
    time, lat, lon = (v.ravel() for v in np.meshgrid(day + np.array([0.0, 0.25, 0.61, 0.999999]), SITES_LAT, SITES_LON[:5], indexing="ij"))
    # also the points directly below and opposite to the Sun
    extra = day + np.arange(64) / 64
    decl, _, hang, _, _ = sunpos_original(extra, 0.0, 0.0, rad=0.0, pres=0.0)
    time = np.concatenate([time, extra, extra])
    lat, lon = np.concatenate([lat, decl, -decl]), np.concatenate([lon, -hang, 180 - hang])
    want = sunpos(time, lat, lon, rad=6371.2)
    got = sunpos_original(time, lat, lon, rad=6371.2, pres=0.0)
    for name, a, b in zip(("declination", "right ascension", "hour angle", "azimuth", "zenith angle"), got, want):
        if name == "azimuth":
            flat = np.sin(np.radians(want[4]))
            a, b = wrap(a - b) * np.where(np.abs(flat) < 1e-6, 0, 1), np.zeros(a.shape)
        elif name in ("right ascension", "hour angle"):
            a, b = wrap(a - b), np.zeros(a.shape)
        elif name == "zenith angle":
            # the arc sine has half of the digits at the zenith
            a, b = (a - b) * np.where(np.abs(np.sin(np.radians(b))) < 1e-5, 0.1, 1), np.zeros(a.shape)
        ctx.close(a, b, 0, 1e-6, what=f"day {day}: {name}")
    # difference of the terrestrial and universal time
    for dtt in (69.184, -1000.0, 1500.0):
        a = np.array(sunpos_original(time, lat, lon, rad=6371.2, pres=0.0, dtt=dtt)[:3])
        b = np.array(sunpos(time, lat, lon, rad=6371.2, dtt=dtt)[:3])
        ctx.close(wrap(a - b), np.zeros(a.shape), 0, 1e-6, what=f"day {day}: terrestrial time offset by {dtt} s")
    ctx.count(len(time) * 7)
    for pres, temp in ((1.0, 20.0), (0.5, -30.0), (1.0, 0.0)):
        bent = sunpos_original(time, lat, lon, rad=6371.2, pres=pres, temp=temp)
        for name, k in (("declination", 0), ("right ascension", 1), ("hour angle", 2), ("azimuth", 3)):
            ctx.same(bent[k], got[k], what=f"day {day}: {name} with refraction")
        elev = np.radians(90 - got[4])
        with np.errstate(all="ignore"):
            lift = np.where(elev > 0, 0.08422 * pres / ((273 + temp) * np.tan(elev + 0.003138 / (elev + 0.08919))), 0)
        edge = np.abs(elev) < 1e-9
        ctx.close(np.where(edge, 0, bent[4]), np.where(edge, 0, got[4] - np.degrees(lift)), 0, 1e-6, what=f"day {day}: refraction {pres} {temp}")


# --- magnetic local time ------------------------------------------------------------------------------

def mlt_cases(tier):
    for year in range(MLT_FIRST, LAST):
        yield year


LON_STEPS = np.arange(-180.0, 361.0, 7.5)


@group("C18", "magnetic local time", mlt_cases, chunk=4)
def local_time(ctx, year):
    shares = [0.0, 0.13, 0.25, 0.5, 0.75, 1 - 2.0**-20] if not ctx.thorough else [k / 24 for k in range(24)] + [1 - 2.0**-20]
    time = moments(year, shares)
    lat, lon = em.eval_subsol(time)
    colat, plon = pole(ctx.tree, time)
    solar = dipole_longitude(lat, lon, colat, plon)
    decl, _, hang, _, _ = sunpos(time, 0, 0, rad=0)
    mut = mjd2000_to_magnetic_universal_time(time, 90 - np.degrees(colat), np.degrees(plon))
    ctx.count(len(time) * 8)
    for qdlon in (0.0, 77.7, -180.0, 180.0, -123.456, 359.9, 1e-5, -500.0):
        mlt = em.eval_mlt(np.full(time.shape, qdlon), time)
        want = 12 + (qdlon - solar) / 15
        diff = mlt - want
        ctx.close(diff - 24 * np.round(diff / 24), np.zeros(diff.shape), 0, 1e-4, what=f"{year}: magnetic local time at {qdlon}")
        ctx.require(np.all((mlt >= 0) & (mlt <= 24)), f"{year}: magnetic local time out of 0 to 24 hours at {qdlon}")
        # the sub-solar point of the other implementation (magnetic universal time)
        diff = mlt - (mut + qdlon / 15)
        ctx.close(diff - 24 * np.round(diff / 24), np.zeros(diff.shape), 0, 0.03, what=f"{year}: magnetic local time and magnetic universal time at {qdlon}")
    # one hour per 15 degrees
    days = time[::61]
    grid_t, grid_q = (v.ravel() for v in np.meshgrid(days, LON_STEPS, indexing="ij"))
    table = em.eval_mlt(grid_q, grid_t).reshape(len(days), -1)
    ctx.count(table.size)
    ctx.require(np.all((table >= 0) & (table <= 24)), f"{year}: magnetic local time out of 0 to 24 hours")
    diff = np.diff(table, axis=1) - 0.5
    ctx.close(diff - 24 * np.round(diff / 24), np.zeros(diff.shape), 0, 1e-5, what=f"{year}: advance of the magnetic local time")
    # noon at the magnetic longitude of the Sun, midnight opposite of it
    for shift, hour in ((0.0, 12.0), (180.0, 0.0), (90.0, 18.0), (-90.0, 6.0)):
        diff = em.eval_mlt(wrap(solar + shift), time) - hour
        ctx.close(diff - 24 * np.round(diff / 24), np.zeros(diff.shape), 0, 1e-4, what=f"{year}: {hour} h")
    ctx.require(np.all(np.isfinite(decl + hang)), f"{year}: undefined solar position")


@group("C18", "any longitude", lambda tier: [[base, sign] for base in (0, 180, 360, 540, 720, 3600, 36000, 720000) for sign in (1, -1)], chunk=2)
def any_longitude(ctx, case):
    """ longitudes of any number of turns """
    base, sign = case
    qdlon = sign * (base + np.arange(-180.0, 180.0, 11.25))
    for time in (-36524.0, 0.5, 8000.25, 36889.9):
        got = em.eval_mlt(qdlon, np.full(qdlon.shape, time))
        want = em.eval_mlt(wrap(qdlon), np.full(qdlon.shape, time))
        diff = got - want
        ctx.close(diff - 24 * np.round(diff / 24), np.zeros(diff.shape), 0, 1e-5 + 1e-7 * base, what=f"longitudes {sign * base}")
        ctx.require(np.all((got >= 0) & (got <= 24)), f"magnetic local time out of 0 to 24 hours for longitudes {sign * base}")


# --- out-of-range times -------------------------------------------------------------------------------

BAD = [NAN, INF, -INF, 1e300, -1e300, 1e19, -1e19, 1e10, -1e10, 2.0**31, -2.0**31 - 1, 2.0**33, -2.5e6, 2.5e6, 36890.0, np.nextafter(36890.0, INF), 36891.5, 40000.0, 146097.0]
BAD_SUBSOL = [-145731.0 - 2.0**-30, -145731.5, -145732.0, -146097.0, -150000.0, -800000.0]
BAD_MLT = [-36524.0 - 2.0**-30, -36524.5, -36525.0, -40000.0, -145731.0] + BAD_SUBSOL
GOOD = [0.0, 36889.99999, np.nextafter(36890.0, 0), -36524.0, 8000.25]
GOOD_SUBSOL = GOOD + [-145731.0, -36524.001]


def bad_cases(tier):
    count = 3 if tier == "quick" else 4
    for name in ("subsol", "mlt"):
        bad = BAD + (BAD_SUBSOL if name == "subsol" else BAD_MLT)
        good = GOOD_SUBSOL if name == "subsol" else GOOD
        yield [name, []]
        for size in range(1, count + 1):
            options = list(range(len(bad))) + [-k - 1 for k in range(len(good))]
            if size >= 3:
                options = [0, 1, 3, 9, 14, len(bad) - 6, len(bad) - 1, -1, -2, -4, -5]
            for combo in itertools.product(options, repeat=size):
                yield [name, list(combo)]


@group("C18", "times out of the supported years", bad_cases, chunk=64)
def unsupported(ctx, case):
    name, combo = case
    bad = BAD + (BAD_SUBSOL if name == "subsol" else BAD_MLT)
    good = GOOD_SUBSOL if name == "subsol" else GOOD
    time = np.array([bad[k] if k >= 0 else good[-k - 1] for k in combo], float)
    qdlon = 15.0 * np.arange(len(time))
    got = em.eval_subsol(time) if name == "subsol" else (em.eval_mlt(qdlon, time),)
    for values in got:
        ctx.require(values.shape == time.shape, f"{name}: shape of the result for {time}")
        for k, value in zip(combo, values):
            if k >= 0:
                ctx.require(np.isnan(value), f"{name}: value {value} for the unsupported time {bad[k]!r}", times=time.tolist())
            else:
                ctx.require(np.isfinite(value), f"{name}: value {value} for the supported time {good[-k - 1]!r}", times=time.tolist())
    # the single values
    if len(combo) == 1:
        single = em.eval_subsol(time[0]) if name == "subsol" else (em.eval_mlt(0.0, time[0]),)
        for values, many in zip(single, got):
            ctx.same(values, many[0], what=f"{name}: single value at {time[0]!r}")
    if name == "mlt" and len(combo) == 1 and combo[0] < 0:
        for qd in (NAN, INF, -INF):
            ctx.require(np.isnan(em.eval_mlt(qd, time[0])), f"mlt: undefined longitude {qd}")


@group("C18", "undefined solar position", lambda tier: [[k, v] for k in range(5) for v in (NAN, INF, -INF)], chunk=4)
def undefined(ctx, case):
    """ undefined inputs give undefined values and do not affect their neighbours """
    which, value = case
    args = [np.full(3, v) for v in (1234.5, 10.0, 20.0, 6371.2, 0.0)]
    plain = sunpos(*args)
    args[which][1] = value
    got = sunpos(*args)
    # inputs influencing each of the outputs (lat: 3 4, lon: 2 3 4, rad: 4)
    affected = {0: range(5), 1: (3, 4), 2: (2, 3, 4), 3: (4,), 4: range(5)}[which]
    for idx, (a, b) in enumerate(zip(got, plain)):
        ctx.same(a[[0, 2]], b[[0, 2]], what=f"neighbours of the undefined argument {which} output {idx}")
        if idx in affected:
            ctx.require(not np.isfinite(a[1]), f"defined output {idx} for the argument {which} {value}: {a[1]}")
        else:
            ctx.same(a[1], b[1], what=f"output {idx} for the undefined argument {which}")
