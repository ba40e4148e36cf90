""" C13 - the ionospheric model follows its Fourier, F10.7 and height-switch rules """
import itertools
import numpy as np
import eoxmagmod as em
from eoxmagmod import _pymm
from eoxmagmod.magnetic_model.loader_mio import convert_external_mio_coeff
from ..core import group
from .. import ref, catalog
from ..catalog import MIO, MIOModel, MIOPrimary, NAN
from ..ref import LD, GEODETIC, SPHERICAL, CARTESIAN
from .c05 import year_of_mjd
from .c11 import dipole_field, mut_reference

KINDS = (GEODETIC, SPHERICAL, CARTESIAN)
NAMES = {GEODETIC: "geodetic", SPHERICAL: "spherical", CARTESIAN: "cartesian"}
PI = LD("3.14159265358979323846264338327950288")
RADIUS = 6371.2


def fourier(time1, time2, coef, min1, min2, scale1=1.0, scale2=1.0):
    """ sum over i, j of a cos(i x + j y) + b sin(i x + j y), by definition """
    coef = np.asarray(coef, dtype=LD)
    x, y = LD(time1) * LD(scale1), LD(time2) * LD(scale2)
    i = np.arange(coef.shape[-3]) + min1
    j = np.arange(coef.shape[-2]) + min2
    phase = i[:, None] * x + j * y
    return (coef[..., 0] * np.cos(phase) + coef[..., 1] * np.sin(phase)).sum((-1, -2))


# --- the two-dimensional Fourier sum --------------------------------------------------

def fourier_cases(tier):
    size = 4 if tier == "quick" else 6
    low = range(-4, 4) if tier == "quick" else range(-7, 7)
    for min1, min2 in itertools.product(low, repeat=2):
        for n1, n2 in itertools.product(range(1, size + 1), repeat=2):
            yield [min1, n1, min2, n2]


@group("C13", "Fourier sum", fourier_cases, chunk=32)
def fourier_sum(ctx, case):
    min1, n1, min2, n2 = case
    coef = ref.generic(2, n1, n2, 2, salt=700 + n1 + 10 * n2)
    for scale1, scale2 in ((1.0, 1.0), (2 * np.pi, np.pi / 12), (-0.5, 3.0)):
        pairs = np.array([(a, b) for a in (0.0, 0.25, 0.999, -1.5, 30.0) for b in (0.0, 6.0, 23.99, -2.5)])
        got = _pymm.fourier2d(pairs[:, 0], pairs[:, 1], coef, min1, min2, scale1, scale2)
        exact = np.array([fourier(a, b, coef, min1, min2, scale1, scale2) for a, b in pairs])
        ctx.count(len(pairs))
        arg = 1 + 30 * (abs(scale1) * (abs(min1) + n1) + abs(scale2) * (abs(min2) + n2))
        if not ctx.close(got, exact.astype(float), rtol=0, atol=2e-16 * arg * n1 * n2, what=f"scales {scale1} {scale2}"):
            return
    ctx.same(_pymm.fourier2d(pairs[5, 0], pairs[5, 1], coef, min1, min2, scale1, scale2), got[5], "single value")
    # single terms
    for i, j, k in itertools.product(range(n1), range(n2), range(2)):
        unit = np.zeros((n1, n2, 2))
        unit[i, j, k] = 1
        phase = (min1 + i) * 0.3 + (min2 + j) * 1.1
        ctx.close(_pymm.fourier2d(0.3, 1.1, unit, min1, min2), [np.cos, np.sin][k](phase), rtol=0, atol=1e-14, what=f"term {i} {j} {k}")
        ctx.count(1)
    if min1 == min2 == 0:
        ctx.close(_pymm.fourier2d(0.3, 1.1, coef), fourier(0.3, 1.1, coef, 0, 0).astype(float), rtol=0, atol=1e-13, what="default arguments")


# --- coefficients ------------------------------------------------------------------------

EXTENTS = [(0, 0, 0, 0), (0, 1, -1, 1), (-1, 2, 0, 2), (-4, 4, -2, 2), (1, 3, -3, -1), (-2, -2, 1, 2)]
TIMES = [0.0, 1.25, 182.625, 365.999, -0.25, 8035.4, -36000.6]
PATTERNS = {"full": catalog.nm_full(3), "sparse": np.array([(3, -2), (1, 0), (2, 1), (3, 3)]), "degree 5": np.array([(5, 4), (5, -5), (4, 0)])}


def dense(nm, values, min_degree=-1, max_degree=-1):
    """ coefficients table up to the highest kept degree """
    keep = [(n, m, v) for (n, m), v in zip(np.asarray(nm).tolist(), values)
            if (min_degree < 0 or n >= min_degree) and (max_degree < 0 or n <= max_degree)]
    degree = max((n for n, _, _ in keep), default=0)
    out = np.zeros((ref.nterms(degree), 2), LD)
    for n, m, v in keep:
        out[n * (n + 1) // 2 + abs(m), 1 if m < 0 else 0] = v
    return out


def mio_values(nm, extent, salt, scale=10.0):
    pmin, pmax, smin, smax = extent
    return ref.generic(len(nm), smax - smin + 1, pmax - pmin + 1, 2, salt=salt) * scale


def table(time, hours, nm, values, extent, **limits):
    """ SH coefficients for MJD2000 and magnetic universal time """
    pmin, _, smin, _ = extent
    year = year_of_mjd(time)
    return dense(nm, fourier(LD(year) - np.floor(LD(year)), hours, values, smin, pmin, 2 * PI, PI / 12), **limits)


@group("C13", "coefficients", lambda tier: [[k, name] for k in range(len(EXTENTS)) for name in PATTERNS], chunk=1)
def coefficients(ctx, case):
    extent, nm = EXTENTS[case[0]], PATTERNS[case[1]]
    values = mio_values(nm, extent, 720)
    coefs = MIO(nm, values, extent)
    ctx.require((coefs.degree, coefs.min_degree) == (max(nm[:, 0]), min(nm[:, 0])), "degrees")
    hours = [0.0, 5.5, 12.0, 23.999, 24.0]
    for limits in ({}, {"max_degree": 2}, {"min_degree": 2}, {"min_degree": 3, "max_degree": 3}, {"max_degree": 4, "min_degree": -1}):
        exact = [[table(t, h, nm, values, extent, **limits) for h in hours] for t in TIMES]
        for a, t in enumerate(TIMES):
            for b, h in enumerate(hours):
                got, degree = coefs(t, h, **limits)
                ctx.count(1)
                e = catalog.padded(np.asarray(exact[a][b], float), 28)
                if not ctx.close(catalog.padded(got, 28), e, rtol=0, atol=2e-10, what=f"time {t}, hour {h}, {limits}"):
                    return
        times, clock = (v.copy() for v in np.broadcast_arrays(np.array(TIMES)[:, None], np.array(hours)))
        got, degree = coefs(times, clock, **limits)
        e = catalog.padded(np.array(exact, float), 28)
        ctx.close(catalog.padded(got, 28), e, rtol=0, atol=2e-10, what=f"arrays {limits}")
    for bad in ((1, 0, 0, 0), (0, 0, 2, 1)):
        ctx.raises(lambda: MIO(nm, values, bad), f"extent {bad}")


# --- field -----------------------------------------------------------------------------

def sheval_cases(tier):
    for k in range(len(EXTENTS)):
        for name in PATTERNS:
            for kin, kout in itertools.product(KINDS, repeat=2):
                yield [k, name, kin, kout]


POINTS = np.array([(a, b, c) for a in (10.0, -77.0, 90.0, -90.0) for b in (0.0, 200.0) for c in (6371.2, 6900.0)] + [(33.0, -120.0, 6481.2)])


def points(kind):
    if kind == SPHERICAL:
        return POINTS
    out = ref.convert(POINTS, SPHERICAL, kind).astype(float)
    if kind == CARTESIAN:   # longitude is undefined on the axis
        return out[np.hypot(out[:, 0], out[:, 1]) > 1]
    out[:, 1] = POINTS[:, 1]
    return out


@group("C13", "direct evaluation", sheval_cases, chunk=4)
def direct(ctx, case):
    index, name, kin, kout = case
    extent, nm = EXTENTS[index], PATTERNS[name]
    values = mio_values(nm, extent, 730)
    pmin, _, smin, _ = extent
    x = points(kin)
    for t1, t2 in ((0.0, 0.0), (0.3, 7.25), (0.999, -3.0)):
        coef = dense(nm, fourier(t1, t2, values, smin, pmin, 2 * np.pi, 0.25))
        for internal in (True, False):
            pot, grad = ref.field(x, coef, kin, kout, internal=internal)
            pot, grad = pot.astype(float), grad.astype(float)
            for mode, spot, sgrad in ((1, 1.0, 1.0), (2, 1.0, -1.0), (3, -2.0, [1.0, 2.0, 3.0])):
                res = _pymm.sheval2dfs(np.full(len(x), t1), np.full(len(x), t2), x, (values, nm.astype("i4"), smin, pmin, 2 * np.pi, 0.25), kin, kout,
                                       mode=mode, is_internal=internal, scale_potential=spot, scale_gradient=sgrad)
                ctx.count(len(x))
                rpot = res if mode == 1 else res[0] if mode == 3 else None
                rgrad = res if mode == 2 else res[1] if mode == 3 else None
                what = f"{t1} {t2} {NAMES[kin]} to {NAMES[kout]} mode {mode} internal {internal}"
                if rpot is not None and not ctx.close(rpot, pot * spot, rtol=1e-11, atol=1e-11 * np.abs(pot).max() + 1e-9, what="potential " + what):
                    return
                if rgrad is not None and not ctx.close(rgrad, grad * np.array(sgrad), rtol=1e-11, atol=3e-11 * np.abs(grad).max() + 1e-12, what="gradient " + what):
                    return


# --- models ------------------------------------------------------------------------------

POLES = [(80.3, -72.6), (80.08, -72.22), (90.0, 0.0), (-45.0, 200.0)]
SUNS = [None, (20.0, 30.0), (-5.0, -170.0), (23.4, 287.4)]
F107 = [None, 0.0, 70.0, 150.5, -10.0, -200.0]


def mio_exact(time, x, nm, values, extent, pole, internal, kin, kout, f107=None, sun=None, wolf=0.014850, scale=1.0, **limits):
    """ field at a single point """
    if sun is None:
        dec, _, hour, _, _ = em.sunpos(time, 0, 0, rad=0)
        sun = float(dec), -float(hour)
    hours = mut_reference(np.array(sun[0]), np.array(sun[1]), *pole)[0]
    coef = table(time, float(hours), nm, values, extent, **limits)
    grad = dipole_field(np.asarray(x)[None], coef, *pole, kin, kout, internal)[1][0]
    return -grad * np.array(scale) * (1 if f107 is None else 1 + wolf * f107)


def model_cases(tier):
    for k, extent in enumerate(EXTENTS[1:5]):
        for pole in range(len(POLES)):
            for kin, kout in itertools.product(KINDS, repeat=2):
                for internal in (True, False):
                    yield [k + 1, pole, kin, kout, internal]


@group("C13", "models", model_cases, chunk=2)
def models(ctx, case):
    index, pole, kin, kout, internal = case
    extent, pole = EXTENTS[index], POLES[pole]
    nm = PATTERNS["full" if index % 2 else "sparse"]
    values = mio_values(nm, extent, 740 + index)
    x = points(kin)
    coefs = MIO(nm, values, extent, is_internal=internal)
    for wolf in (None, 0.02, 0.0, -0.03):
        model = MIOModel(coefs, pole) if wolf is None else MIOModel(coefs, pole, wolf_ratio=wolf)
        ratio = 0.014850 if wolf is None else wolf
        ctx.require(set(model.parameters) == {"time", "location", "f107", "subsolar_point"}, "required parameters")
        combos = list(itertools.product(TIMES[:4] if wolf is None else TIMES[:1], F107, SUNS))
        options = [{}, {"scale": -2.0}, {"scale": 0}, {"max_degree": 2}, {"min_degree": 3, "scale": [1.0, 0.5, 2.0]}]
        rows = []
        for number, (time, f107, sun) in enumerate(combos):
            point = x[number % len(x)]
            opts = options[number % 4]
            exact = mio_exact(time, point, nm, values, extent, pole, internal, kin, kout, f107, sun, ratio, **opts)
            extra = dict(opts)
            if f107 is not None:
                extra["f107"] = f107
            if sun is not None:
                extra.update(lat_sol=sun[0], lon_sol=sun[1])
            got = model.eval(time, point, kin, kout, **extra)
            ctx.count(1)
            if not ctx.close(got, exact, rtol=1e-10, atol=1e-10 * np.abs(exact).max() + 1e-12, what=f"time {time} f107 {f107} sun {sun} {opts} at {point.tolist()}, Wolf ratio {ratio}"):
                return
            if not opts and f107 is not None and sun is not None:
                rows.append((time, point, f107, sun, exact))
        if rows:
            t, p, f, s, e = (np.array([r[k] for r in rows]) for k in range(5))
            got = model.eval(t, p, kin, kout, f107=f, lat_sol=s[:, 0], lon_sol=s[:, 1])
            ctx.close(got, e, rtol=1e-10, atol=1e-10 * np.abs(e).max(), what="arrays of all inputs")
    ctx.state(*case)


# --- primary field: switch at the ionosphere ------------------------------------------------

def primary(extent, nm, values, pole, height, earth=None, **kwargs):
    degree = int(nm[:, 0].max())
    below = MIOModel(MIO(nm, values, extent, is_internal=False, **kwargs), pole)
    above = MIOModel(MIO(nm, convert_external_mio_coeff(degree, nm, values, height), extent, **kwargs), pole)
    if earth is not None:
        return MIOPrimary(below, above, height=height, earth_radius=earth)
    return MIOPrimary(below, above) if height == 110.0 else MIOPrimary(below, above, height=height)


def switch_cases(tier):
    for k in (0, 1, 2, 4):
        for name in PATTERNS:
            for height in (110.0, 0.0, 250.0):
                for kout in KINDS:
                    yield [k, name, height, kout, None]
            for earth in (6300.0, 6371.0, 6378.137, 7000.0):
                for height in (110.0, 90.5):
                    yield [k, name, height, k % 3, earth]


@group("C13", "switch at the ionosphere", switch_cases, chunk=2)
def switch(ctx, case):
    index, name, height, kout, earth = case
    extent, nm = EXTENTS[index], PATTERNS[name]
    values = mio_values(nm, extent, 760)
    pole = POLES[index % len(POLES)]
    limit = (RADIUS if earth is None else earth) + height
    model = primary(extent, nm, values, pole, height, earth)
    ctx.require((model.degree, model.min_degree) == (max(nm[:, 0]), min(nm[:, 0])), "degrees")
    n = nm[:, 0].astype(LD)
    inner = values * (-(n / (n + 1)) * (1 + LD(height) / LD(RADIUS)) ** (2 * n + 1))[:, None, None, None].astype(float)
    ctx.close(convert_external_mio_coeff(int(nm[:, 0].max()), nm, values, height), inner, rtol=1e-13, atol=0, what="equivalent internal coefficients")
    radii = [limit - 3000, limit - 50, np.nextafter(limit, 0), limit, np.nextafter(limit, 1e9), limit + 1e-6, limit + 400, limit + 40000]
    for lat, lon in ((10.0, 20.0), (-77.0, 200.0), (90.0, 0.0)):
        for f107, sun in ((70.0, (20.0, 30.0)), (None, None)):
            fields = []
            for radius in radii:
                x = np.array([lat, lon, radius])
                low = radius <= limit
                exact = mio_exact(4.25, x, nm, values if low else inner, extent, pole, not low, SPHERICAL, kout, f107, sun)
                opts = {} if f107 is None else {"f107": f107, "lat_sol": sun[0], "lon_sol": sun[1]}
                got = model.eval(4.25, x, SPHERICAL, kout, **opts)
                ctx.count(1)
                if not ctx.close(got, exact, rtol=1e-10, atol=1e-10 * np.abs(exact).max() + 1e-15, what=f"radius {radius!r} at {lat} {lon}, f107 {f107}"):
                    return
                fields.append(got)
            together = model.eval(4.25, np.array([(lat, lon, r) for r in radii]), SPHERICAL, kout, **opts)
            ctx.close(together, np.array(fields), rtol=1e-12, atol=1e-13, what="all radii at once")
            if kout == SPHERICAL and earth is None:   # radial component goes through the switch
                ctx.close(fields[4][2], fields[3][2], rtol=1e-9, atol=1e-10 * np.abs(fields[3]).max(), what="radial component across the ionosphere")
    ctx.state(*case)


# the other input coordinate systems, points on both sides
@group("C13", "primary field in all frames", lambda tier: [[a, b, k] for a in KINDS for b in KINDS for k in (1, 2, 3)], chunk=1)
def primary_frames(ctx, case):
    kin, kout, index = case
    extent, nm = EXTENTS[index], PATTERNS["full"]
    values = mio_values(nm, extent, 770)
    model = primary(extent, nm, values, POLES[0], 110.0)
    inner = convert_external_mio_coeff(3, nm, values, 110.0)
    x = points(kin)
    radius = ref.convert(x, kin, SPHERICAL)[:, 2]
    clear = np.abs(radius - 6481.2) > 1e-6        # conversion may round to either side
    x, radius = x[clear], radius[clear]
    for opts in ({}, {"scale": 2.5}, {"scale": 0.0}, {"max_degree": 2}, {"min_degree": 2, "max_degree": 2}):
        limits = {k: v for k, v in opts.items()}
        exact = np.array([mio_exact(200.5, p, nm, values if r <= 6481.2 else inner, extent, POLES[0], bool(r > 6481.2), kin, kout, 99.0, (10.0, 40.0), **limits)
                          for p, r in zip(x, radius)])
        got = model.eval(200.5, x, kin, kout, f107=99.0, lat_sol=10.0, lon_sol=40.0, **opts)
        ctx.count(len(x))
        polar = np.hypot(*ref.convert(x, kin, CARTESIAN)[:, :2].T) < 1e-3
        keep = ~polar if kin == GEODETIC else slice(None)
        ctx.close(got[keep], exact[keep], rtol=1e-10, atol=1e-9, what=f"{NAMES[kin]} to {NAMES[kout]} {opts}")


# --- own function of the season -----------------------------------------------------------------

SEASONS = {
    "constant": lambda t: np.asarray(t, float) * 0 + 0.3,
    "simplified": em.time_util.mjd2000_to_year_fraction_simple,
    "reversed": lambda t: 1 - em.mjd2000_to_year_fraction(t),
    "slow": lambda t: np.asarray(t, float) / 1000,
}


@group("C13", "own function of the season", lambda tier: [[n, e, k] for n in SEASONS for e in range(1, 5) for k in KINDS], chunk=2)
def seasons(ctx, case):
    name, index, kout = case
    season, extent, nm = SEASONS[name], EXTENTS[index], PATTERNS["full"]
    values = mio_values(nm, extent, 795)
    x = points(SPHERICAL)[:4]
    times = np.array([0.0, 100.5, 3000.25, -400.0])
    sun = (12.0, -50.0)
    hours = mut_reference(np.array(sun[0]), np.array(sun[1]), *POLES[0])[0]
    for internal in (True, False):
        coefs = MIO(nm, values, extent, mjd2000_to_year_fraction=season, is_internal=internal)
        model = MIOModel(coefs, POLES[0])
        exact = []
        for time, place in zip(times, x):
            arr = dense(nm, fourier(LD(float(season(time))), float(hours), values, extent[2], extent[0], 2 * PI, PI / 12)).astype(float)
            ctx.close(catalog.padded(coefs(time, float(hours))[0], len(arr)), arr, rtol=0, atol=1e-10, what=f"{name} season: coefficients at {time}")
            exact.append(-dipole_field(np.asarray(place)[None], arr, *POLES[0], SPHERICAL, kout, internal)[1][0].astype(float))
        exact = np.array(exact)
        atol = 1e-10 * np.abs(exact).max() + 1e-12
        ctx.count(len(times) + 1)
        ctx.close(model.eval(times, x, SPHERICAL, kout, lat_sol=sun[0], lon_sol=sun[1]), exact, rtol=1e-9, atol=atol, what=f"{name} season: array")
        for time, place, want in zip(times, x, exact):
            ctx.close(model.eval(time, place, SPHERICAL, kout, lat_sol=sun[0], lon_sol=sun[1]), want, rtol=1e-9, atol=atol, what=f"{name} season: single time {time}")


# --- undefined inputs ----------------------------------------------------------------------

KINDS_OF_BAD = ["none", "time", "latitude", "longitude", "radius", "f107", "lat_sol", "lon_sol", "before", "after"]


def undefined_cases(tier):
    size = 3 if tier == "quick" else 4
    for combo in itertools.product(range(len(KINDS_OF_BAD)), repeat=size):
        yield list(combo)


_CACHE = {}


def undefined_models():
    if not _CACHE:
        extent, nm = EXTENTS[1], PATTERNS["sparse"]
        values = mio_values(nm, extent, 780)
        span = {"validity_start": 0.0, "validity_end": 30.0}
        _CACHE["secondary"] = MIOModel(MIO(nm, values, extent, **span), POLES[0])
        _CACHE["primary"] = primary(extent, nm, values, POLES[0], 110.0, **span)
        for name in ("secondary", "primary"):
            for pos in range(4):
                row = undefined_row(0, pos)
                _CACHE[name, pos] = evaluate(_CACHE[name], [row])[0]
    return _CACHE


def undefined_row(bad, pos):
    row = [4.0 + 8 * pos, 10.0 + 20 * pos, 30.0 * pos, [6371.2, 6800.0, 6481.2, 7000.0][pos], 70.0 + 10 * pos, 20.0 - 3 * pos, 15.0 * pos]
    name = KINDS_OF_BAD[bad]
    if name == "before":
        row[0] = -0.5
    elif name == "after":
        row[0] = 30.5
    elif bad:
        row[bad - 1] = NAN
    return row


def evaluate(model, rows):
    r = np.array(rows, dtype=float)
    return model.eval(r[:, 0], r[:, 1:4], f107=r[:, 4], lat_sol=r[:, 5], lon_sol=r[:, 6])


@group("C13", "undefined inputs", undefined_cases, chunk=64)
def undefined(ctx, case):
    """ arrays of points, each with none or one undefined input """
    store = undefined_models()
    rows = [undefined_row(bad, pos) for pos, bad in enumerate(case)]
    for name in ("secondary", "primary"):
        exact = np.array([store[name, pos] if not bad else np.full(3, NAN) for pos, bad in enumerate(case)])
        ctx.count(len(case))
        ctx.close(evaluate(store[name], rows), exact, rtol=1e-12, atol=1e-12, what=f"{name} field with undefined {[KINDS_OF_BAD[k] for k in case]}")


@group("C13", "undefined single values", lambda tier: [[k, n] for k in range(1, 10) for n in (0, 1, 3)], chunk=4)
def undefined_single(ctx, case):
    """ an undefined single value applies to all points """
    bad, size = case
    store = undefined_models()
    for name in ("secondary", "primary"):
        row = undefined_row(bad, 0)
        x = np.array(row[1:4]) if size == 0 else np.array([row[1:4]] * size)
        got = store[name].eval(row[0], x, f107=row[4], lat_sol=row[5], lon_sol=row[6])
        ctx.count(1)
        ctx.require(got.shape == x.shape and bool(np.all(np.isnan(got))), f"{name} field with undefined {KINDS_OF_BAD[bad]}: {got.tolist()}")
        good = undefined_row(0, 0)
        x = np.array(good[1:4]) if size == 0 else np.array([good[1:4]] * size)
        got = store[name].eval(good[0], x, f107=good[4], lat_sol=good[5], lon_sol=good[6])
        ctx.close(got, np.broadcast_to(store[name, 0], got.shape), rtol=1e-12, atol=1e-12, what=f"{name} field")


# --- single values and arrays mixed --------------------------------------------------------

def mixed_cases(tier):
    return [list(mask) for mask in itertools.product((0, 1), repeat=5)]


@group("C13", "single values and arrays", mixed_cases, chunk=2)
def mixed(ctx, case):
    """ each of time, location, F10.7 and sub-solar point single or array """
    store = undefined_models()
    rows = np.array([undefined_row(0, pos) for pos in range(4)])
    is_array = dict(zip(("time", "location", "f107", "lat_sol", "lon_sol"), case))
    if not (is_array["time"] or is_array["location"]) and sum(case):
        is_array["location"] = 1
    columns = {"time": rows[:, 0], "location": rows[:, 1:4], "f107": rows[:, 4], "lat_sol": rows[:, 5], "lon_sol": rows[:, 6]}
    args = {k: v if is_array[k] else v[1] for k, v in columns.items()}
    each = {k: v if is_array[k] else np.array([v[1]] * 4) for k, v in columns.items()}
    time, loc = args.pop("time"), args.pop("location")
    for name in ("secondary", "primary"):
        got = store[name].eval(time, loc, **args)
        exact = np.array([store[name].eval(each["time"][k], each["location"][k], f107=each["f107"][k], lat_sol=each["lat_sol"][k], lon_sol=each["lon_sol"][k]) for k in range(4)])
        ctx.count(5)
        ctx.close(got, exact if sum(case) else exact[0], rtol=1e-12, atol=1e-12, what=f"{name} {is_array}")


# --- what the models and the coefficients do not accept ---------------------------------------------------

@group("C13", "refused coefficients", lambda tier: [["model", k] for k in ("constant", "linear", "year", "composed", "combined", "none", "table")]
       + [["extent", list(e)] for e in itertools.product((-1, 0, 1), repeat=4) if e[0] > e[1] or e[2] > e[3]], chunk=8)
def refused(ctx, case):
    kind, what = case
    if kind == "extent":
        nm = PATTERNS["full"]
        for sizes in ((1, 1), (2, 2), (3, 3), (abs(what[3] - what[2]) + 1, abs(what[1] - what[0]) + 1), (0, 0)):
            values = ref.generic(len(nm), *sizes, 2, salt=790) if 0 not in sizes else np.zeros((len(nm),) + sizes + (2,))
            ctx.raises(lambda: catalog.MIO(nm, values, what, is_internal=True), f"extent {what}")
        return
    coefs = {"constant": catalog.constant, "linear": catalog.linear, "year": lambda: catalog.linear(times=(2000.0, 2000.01, 2000.05), cls=catalog.LinearDY),
             "composed": lambda: catalog.Composed(catalog.mio(), catalog.mio()), "combined": lambda: catalog.Combined(catalog.mio(), catalog.mio()),
             "none": lambda: None, "table": lambda: np.zeros((3, 2))}[what]()
    ctx.raises(lambda: catalog.MIOModel(coefs, catalog.POLE), f"ionospheric model of {what} coefficients", (TypeError, ValueError))


@group("C13", "models of the files", lambda tier: [["dipole", k, 0, [9.7, -72.6], h, w] for k in range(4) for h, w in ((110.0, 0.02), (90.5, 0.01485), (350.0, 0.0))], chunk=2)
def file_models(ctx, case):
    """ the models read from a file use the poles, the height and the Wolf ratio of the file """
    from . import c14  # pylint: disable=import-outside-toplevel
    c14.mio(ctx, case)
