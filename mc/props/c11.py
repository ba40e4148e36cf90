""" C11 - the dipole frame is a rotation and dipole-frame evaluation matches it """
import itertools
import numpy as np
import eoxmagmod as em
from eoxmagmod.dipole import rotate_vectors_from_dipole
from eoxmagmod.dipole_coords import (
    convert_to_dipole, vrot_from_dipole, get_dipole_rotation_matrix,
)
from ..core import group
from .. import ref, catalog
from ..catalog import Constant, Linear, Combined, Composed, DipoleModel, mut
from ..ref import LD, GEODETIC, SPHERICAL, CARTESIAN

KINDS = (GEODETIC, SPHERICAL, CARTESIAN)
NAMES = {GEODETIC: "geodetic", SPHERICAL: "spherical", CARTESIAN: "cartesian"}
EYE = np.eye(3)

POLE_LATS = [90.0, 80.3, 80.08, 45.0, 12.5, 0.0, -0.0, -33.0, -80.3, -90.0, 89.99999, 90 - 2**-40]
POLE_LONS = [0.0, -72.6, 72.6, 90.0, -90.0, 180.0, -180.0, 287.4, 287.78, -432.6, 1e-9, 133.0]
POINT_LATS = [90.0, -90.0, 0.0, 45.0, -45.0, 80.3, -80.3, 9.7, -12.5, 33.0, 77.7, -60.0, 89.9999999, -89.9999999]
POINT_LONS = [0.0, 180.0, -180.0, 107.4, -72.6, 90.0, -90.0, 17.4, 287.4, 33.3, 200.0]


def poles(tier):
    lats, lons = POLE_LATS, POLE_LONS
    if tier == "thorough":
        lats = lats + [float(v) for v in range(-85, 90, 10)]
        lons = lons + [float(v) for v in range(-355, 360, 30)]
    return [[a, b] for a in lats for b in lons]


def few_poles(tier):
    out = [[80.3, -72.6], [80.08, -72.22], [90.0, 0.0], [90.0, 40.0], [0.0, 10.0], [-33.0, 200.0], [-90.0, 15.0], [77.0, 287.4]]
    return out if tier == "quick" else out + poles("quick")[::5]


def matrix(lat, lon):
    """ columns: dipole axes x, y, z in the geographic Cartesian frame """
    up = ref.to_cart(np.array([lat, lon, 1.0]), SPHERICAL)
    s, c = ref.sincosd(lon)
    east = np.array([-s, c, LD(0)])
    return np.stack([np.cross(east, up), east, up], -1)


def tolerance(*angles):
    return 4e-15 * (1 + sum(np.max(np.abs(a)) for a in angles) / 90)


def to_dipole(cart, lat, lon):
    return np.asarray(cart, LD) @ matrix(lat, lon)


# --- rotation matrix, coordinates -----------------------------------------------------

@group("C11", "rotation matrix", poles, chunk=8)
def rotation(ctx, case):
    lat, lon = case
    rot = np.asarray(get_dipole_rotation_matrix(lat, lon))
    ctx.close(rot, matrix(lat, lon).astype(float), rtol=0, atol=tolerance(lat, lon), what="matrix")
    ctx.close(rot.T @ rot, EYE, rtol=0, atol=2e-15, what="orthogonality")
    ctx.close(np.linalg.det(rot), 1.0, rtol=0, atol=2e-15, what="a proper rotation")
    ctx.close(ref.to_cart(np.array([lat, lon, 1.0]), SPHERICAL).astype(float) @ rot, [0, 0, 1], rtol=0,
              atol=tolerance(lat, lon), what="pole")
    pole = convert_to_dipole(np.array([lat, lon, 6371.2]), lat, lon)
    ctx.close(pole[0], 90.0, rtol=0, atol=2e-13 * (1 + abs(lon) / 90), what="dipole latitude of the pole")
    ctx.close(pole[2], 6371.2, rtol=1e-15, atol=0, what="radius of the pole")
    anti = convert_to_dipole(np.array([-lat, lon + 180.0, 6371.2]), lat, lon)
    ctx.close(anti[0], -90.0, rtol=0, atol=2e-13 * (2 + abs(lon) / 90), what="dipole latitude of the antipole")
    if abs(lat) < 89.9:
        # the prime half-plane holds the geographic south pole, longitudes grow eastward
        south = convert_to_dipole(np.array([-90.0, 0.0, 6371.2]), lat, lon)
        ctx.close(south[:2], [-lat, 0.0], rtol=0, atol=1e-12, what="geographic south pole")
        north = convert_to_dipole(np.array([90.0, 0.0, 6371.2]), lat, lon)
        ctx.close([north[0], abs(north[1])], [lat, 180.0], rtol=0, atol=1e-12, what="geographic north pole")
        east = convert_to_dipole(np.array([0.0, lon + 90.0, 6371.2]), lat, lon)
        ctx.close(east[:2], [0.0, 90.0], rtol=0, atol=1e-12, what="the common equator")
    ctx.count(5)


def grid(kind):
    vert = [0.0, 450.0] if kind == GEODETIC else [6371.2, 8000.0]
    sph = np.array([(a, b, c) for a in POINT_LATS for b in POINT_LONS for c in vert])
    return sph if kind != CARTESIAN else ref.to_cart(sph, SPHERICAL).astype(float)


@group("C11", "coordinates and vectors", lambda tier: [p + [k] for p in poles(tier) for k in KINDS], chunk=6)
def coordinates(ctx, case):
    lat, lon, kind = case
    points = grid(kind)
    cart = ref.to_cart(points, kind)
    exact = to_dipole(cart, lat, lon)
    radius = np.sqrt((cart ** 2).sum(-1)).astype(float)
    tol = tolerance(lat, lon, 360.0)
    dip = convert_to_dipole(points, lat, lon, kind)
    ctx.count(len(points))
    ctx.require(bool(np.all(np.abs(dip[:, 0]) <= 90) and np.all(np.abs(dip[:, 1]) <= 180)), "ranges")
    if not ctx.close(ref.to_cart(dip, SPHERICAL).astype(float) / radius[:, None], (exact / radius[:, None]).astype(float),
                     rtol=0, atol=tol, what=f"{NAMES[kind]} to dipole coordinates"):
        return
    ctx.close(dip[:, 2], radius, rtol=1e-14, atol=0, what="radius")
    if kind == SPHERICAL:
        ctx.same(convert_to_dipole(points, lat, lon), dip, "default coordinate system")
    ctx.state(kind, lat, lon)

    # vectors
    cart = cart.astype(float)
    for vec in EYE.tolist() + [[3.0, -4.0, 12.0]]:
        vectors = np.tile(np.array(vec), (len(points), 1))
        world = (vectors[:, :, None] * ref.frame(dip, SPHERICAL)).sum(1) @ matrix(lat, lon).T
        for kout in KINDS:
            xout = ref.convert(points, kind, kout) if kind != kout else points
            expected = (ref.frame(xout, kout) * world[:, None, :]).sum(-1).astype(float)
            size = np.linalg.norm(vec)
            got = rotate_vectors_from_dipole(vectors, lat, lon, dip, points, kind, kout)
            ctx.count(len(points))
            # at the axis the code's longitude may be rounded noise: compare away from it
            far = np.hypot(cart[:, 0], cart[:, 1]) > 1e-3 * radius if kind == CARTESIAN and kout != CARTESIAN else np.ones(len(points), bool)
            if not ctx.close(got[far], expected[far], rtol=0, atol=3e-12 * size if kout != CARTESIAN else 2 * tol * size, what=f"vector {vec} from dipole to {NAMES[kout]} at {NAMES[kind]} points"):
                return
            ctx.close(np.linalg.norm(got, axis=-1), np.full(len(points), size), rtol=1e-14, atol=0, what="length")
            if kout == CARTESIAN:
                again = vrot_from_dipole(vectors, lat, lon, dip[:, 0], dip[:, 1])
            else:
                out = em.convert(points, kind, kout)
                again = vrot_from_dipole(vectors, lat, lon, dip[:, 0], dip[:, 1], out[:, 0], out[:, 1], kout)
            ctx.close(again, got, rtol=0, atol=1e-14 * size, what=f"vector {vec} to {NAMES[kout]} at {NAMES[kind]} points")


# --- spherical harmonics in the dipole frame ----------------------------------------------

def dipole_field(points, coef, lat, lon, kin, kout, internal, degree=None):
    """ reference: field at the rotated point, rotated back """
    cart = ref.to_cart(points, kin)
    rot = matrix(lat, lon)
    pot, grad = ref.field(cart @ rot, coef, CARTESIAN, CARTESIAN, degree, internal)
    world = grad @ rot.T
    xout = ref.convert(points, kin, kout) if kin != kout else points
    return pot.astype(float), (ref.frame(xout, kout) * world[..., None, :]).sum(-1).astype(float)


def eval_points(kin):
    x = grid(kin)[::7]
    if kin == CARTESIAN:
        x = x[np.hypot(x[:, 0], x[:, 1]) > 1e-2 * np.abs(x[:, 2])]
    return x


def eval_cases(tier):
    for pole in few_poles(tier):
        for kin, kout in itertools.product(KINDS, repeat=2):
            for internal in (True, False):
                yield pole + [kin, kout, internal]


@group("C11", "dipole evaluation", eval_cases, chunk=2)
def evaluation(ctx, case):
    lat, lon, kin, kout, internal = case
    points = eval_points(kin)
    coef = ref.generic_coef(4, salt=600, n0=True)
    for degree in (None, -1, 0, 2, 4, 9):
        pot, grad = dipole_field(points, coef, lat, lon, kin, kout, internal,
                                 None if degree is None or degree < 0 else min(degree, 4))
        options = {} if degree is None else {"degree": degree}
        for spot, sgrad in ((None, None), (2.5, -1.0), (-0.25, [1.0, 2.0, -3.0]), (0, 0)):
            if spot is not None:
                options.update(scale_potential=spot, scale_gradient=sgrad)
            for mode in (em.POTENTIAL, em.GRADIENT, em.POTENTIAL_AND_GRADIENT):
                res = em.sheval_dipole(points, coef, lat, lon, kin, kout, mode=mode, is_internal=internal, **options)
                ctx.count(len(points))
                what = f"{NAMES[kin]} to {NAMES[kout]}, mode {mode}, {options}"
                if mode == em.POTENTIAL_AND_GRADIENT:
                    rpot, rgrad = res
                else:
                    rpot, rgrad = (res, None) if mode == em.POTENTIAL else (None, res)
                if rpot is not None and not ctx.close(rpot, pot * (1 if spot is None else spot), rtol=1e-11, atol=1e-8 * np.abs(pot).max(), what="potential " + what):
                    return
                if rgrad is not None and not ctx.close(rgrad, grad * (1 if spot is None else np.array(sgrad)), rtol=1e-11,
                                                       atol=1e-11 * 3 * np.abs(grad).max(), what="gradient " + what):
                    return
            if degree not in (None, 4):
                break
    defaults = em.sheval_dipole(points, coef, lat, lon) if kin == kout == GEODETIC and internal else None
    if defaults is not None:
        ctx.close(defaults, dipole_field(points, coef, lat, lon, kin, kout, True)[1], rtol=1e-11, atol=1e-7, what="default arguments")
    ctx.state(*case)


MODEL_KINDS = ["constant", "linear", "external", "combined", "composed"]


def coefficients(kind):
    if kind == "constant":
        return catalog.constant(degree=3, salt=610)
    if kind == "linear":
        return catalog.linear(degree=3, salt=611)
    if kind == "external":
        return catalog.linear(degree=2, salt=612, is_internal=False)
    if kind == "combined":
        return Combined(catalog.linear(degree=3, salt=613), catalog.constant(degree=2, salt=614))
    return Composed(catalog.linear(degree=2, salt=615, times=(0.0, 10.0)), catalog.linear(degree=3, salt=616, times=(10.0, 30.0)))


def model_cases(tier):
    for pole in few_poles(tier):
        for kind in MODEL_KINDS:
            for kin, kout in itertools.product(KINDS, repeat=2):
                yield pole + [kind, kin, kout]


@group("C11", "dipole models", model_cases, chunk=4)
def models(ctx, case):
    lat, lon, kind, kin, kout = case
    coefs = coefficients(kind)
    model = DipoleModel(coefs, north_pole=(lat, lon))
    points = eval_points(kin)
    internal = kind != "external"
    for time in (4.0, 22.0):
        for options in ({}, {"scale": -2.0}, {"scale": 0}, {"scale": [0.0, 1.0, 0.0]}, {"scale": [1.0, 0.5, -3.0]}, {"max_degree": 1}, {"min_degree": 2, "scale": 3.0}):
            limits = {k: v for k, v in options.items() if k != "scale"}
            coef, degree = coefs(time, **limits)
            if coef.shape[0] < 3:
                coef = np.concatenate([coef, np.zeros((3 - coef.shape[0], 2))])
                degree = 1
            exact = -dipole_field(points, coef, lat, lon, kin, kout, internal, degree)[1] * np.array(options.get("scale", 1.0))
            size = np.abs(exact).max() + 1e-3
            before = dict(options)
            got = model.eval(time, points, kin, kout, **options)
            ctx.count(len(points))
            ctx.require(options == before, "options changed")
            if not ctx.close(got, exact, rtol=1e-11, atol=1e-10 * size, what=f"time {time} {options} {NAMES[kin]} to {NAMES[kout]}"):
                return
            times = np.full(len(points), time)
            ctx.close(model.eval(times, points, kin, kout, **options), exact, rtol=1e-11, atol=1e-10 * size, what=f"times {time} {options}")
    # a single point, and a pole moved later
    ctx.close(model.eval(4.0, points[3], kin, kout), model.eval(4.0, points, kin, kout)[3], rtol=1e-12, atol=1e-9, what="single point")
    ctx.state(*case)


# --- magnetic universal time -----------------------------------------------------------------

def mut_reference(lat, lon, plat, plon):
    """ 12 hours minus the dipole longitude of the point, and its accuracy """
    v = to_dipole(ref.to_cart(np.stack(np.broadcast_arrays(lat, lon, 1.0), -1), SPHERICAL), plat, plon)
    phi = np.arctan2(v[..., 1], v[..., 0]) / ref.D2R
    return ((180 - phi) / 15).astype(float), np.hypot(v[..., 0], v[..., 1]).astype(float)


@group("C11", "magnetic universal time", poles, chunk=4)
def magnetic_time(ctx, case):
    plat, plon = case
    sol = np.array([(a, b) for a in (-23.4, -12.0, 0.0, 1e-9, 7.7, 23.44, 80.3, -80.3) for b in POINT_LONS + [plon, plon + 180, plon - 90, -719.5]])
    exact, dist = mut_reference(sol[:, 0], sol[:, 1], plat, plon)
    got = mut(0.0, plat, plon, lat_sol=sol[:, 0], lon_sol=sol[:, 1])
    ctx.count(len(sol))
    ctx.require(bool(np.all((got >= 0) & (got <= 24))), "range")
    diff = np.abs((got - exact + 12) % 24 - 12)
    far = dist > 1e-6
    ctx.close(diff[far] * dist[far], np.zeros(far.sum()), rtol=0, atol=2e-14 * (1 + (abs(plon) + 720) / 90), what="given sub-solar points")
    # consistency with the dipole coordinates of the library
    dip = convert_to_dipole(np.column_stack([sol, np.full(len(sol), 6371.2)]), plat, plon)
    diff = np.abs((got - (180 - dip[:, 1]) / 15 + 12) % 24 - 12)
    ctx.close(diff[far] * dist[far], np.zeros(far.sum()), rtol=0, atol=1e-12, what="dipole longitude of the library")
    # default Sun
    times = np.concatenate([np.arange(-3650.0, 11000.0, 365.0) + 0.3, np.arange(0.0, 1.0, 1 / 48), [8034.999999, 8035.0]])
    dec, _, hour, _, _ = em.sunpos(times, 0, 0, rad=0)
    exact, dist = mut_reference(dec, -hour, plat, plon)
    got = mut(times, plat, plon)
    ctx.count(len(times))
    ctx.require(bool(np.all((got >= 0) & (got <= 24))), "range")
    diff = np.abs((got - exact + 12) % 24 - 12)
    far = dist > 1e-6
    ctx.close(diff[far] * dist[far], np.zeros(far.sum()), rtol=0, atol=1e-12, what="default sub-solar points")
    ctx.same(mut(times[3], plat, plon), got[3], "single time")
    # only one of the coordinates given: the Sun model is used
    ctx.same(mut(times, plat, plon, lat_sol=3.0), got, "latitude alone")
    ctx.same(mut(times, plat, plon, lon_sol=3.0), got, "longitude alone")
    ctx.require(bool(np.isnan(mut(np.nan, plat, plon))), "undefined time")
    # fixed pole: the day's run of the magnetic time covers 24 hours and grows
    if plat > 60:
        day = mut(np.arange(0.0, 1.0, 1 / 96), plat, plon)
        step = np.diff(day) % 24
        ctx.require(bool(np.all((step > 0) & (step < 2))), "magnetic time advances")
        ctx.require(abs(step.sum() + (day[0] - day[-1]) % 24 - 24) < 1e-9, "a turn per day")
