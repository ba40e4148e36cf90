""" C01 - spherical-harmonic evaluation equals the analytic expansion """
import numpy as np
import eoxmagmod as em
from eoxmagmod import _pymm
from .. import ref
from ..core import group
from ..common import *

POT, GRD, BOTH = em.POTENTIAL, em.GRADIENT, em.POTENTIAL_AND_GRADIENT
assert (em.GEODETIC_ABOVE_WGS84, em.GEOCENTRIC_SPHERICAL, em.GEOCENTRIC_CARTESIAN) == KINDS


def tol_rtol(degree):
    return 1e-10 * (degree + 2)


def compare(ctx, x, coef, kin, kout, degree, internal, mode, scales, what, rtol):
    """ one evaluation against the definition; scale = size of the terms """
    sp, sg = scales
    kw = {}
    if sp is not None:
        kw["scale_potential"] = sp
    if sg is not None:
        kw["scale_gradient"] = sg
    if degree is not None:
        kw["degree"] = degree
    got = em.sheval(x, coef, kin, kout, mode=mode, is_internal=internal, **kw)
    pot, grd = ref.field(x, coef, kin, kout, degree, internal)
    pot = pot * (1.0 if sp is None else sp)
    grd = grd * np.asarray(1.0 if sg is None else sg, dtype=float)
    psize, gsize = size(x, coef, kin, degree, internal)
    psize = psize * abs(1.0 if sp is None else sp)
    gsize = gsize[..., None] * np.abs(np.asarray(1.0 if sg is None else sg, dtype=float))
    gpot, ggrd = {POT: (got, None), GRD: (None, got), BOTH: got if mode == BOTH else None}[mode]
    if gpot is not None:
        ctx.close(gpot, pot, rtol=rtol, atol=0, scale=psize, what=f"{what} potential")
    if ggrd is not None:
        ctx.close(ggrd, grd, rtol=rtol, atol=0, scale=gsize, what=f"{what} gradient")


def size(x, coef, kind, degree, internal):
    """ magnitude of the summed terms: sum |c| (a/r)^(n+1).. """
    rad = ref.convert(x, kind, SPHERICAL)[..., 2]
    coef = np.asarray(coef)
    full = int(round((np.sqrt(8 * coef.shape[-2] + 1) - 3) / 2))
    deg = full if degree is None or degree < 0 else min(full, degree)
    pot, grd = 0, 0
    for n in range(deg + 1):
        amp = np.abs(coef[..., n*(n+1)//2:(n+1)*(n+2)//2, :]).sum(axis=(-1, -2))
        q = rad / ref.RAD0
        if internal:
            pot = pot + ref.RAD0 * amp * q ** -(n + 1)
            grd = grd + (n + 1) * amp * q ** -(n + 2)
        else:
            pot = pot + ref.RAD0 * amp * q ** n
            grd = grd + n * amp * q ** (n - 1)
    return np.asarray(pot, float) + 0 * np.asarray(rad, float), np.asarray(grd, float) + 0 * np.asarray(rad, float)


# --- every basis function alone ----------------------------------------------

def basis_cases(tier):
    top = 8 if tier == "quick" else 20
    pad = (0, 3)
    for internal in (True, False):
        for n in range(top + 1):
            for m in range(n + 1):
                for part in (0, 1):
                    if part and not m:
                        continue
                    for extra in pad:
                        yield [n, m, part, internal, n + extra]
    # high-degree Legendre algorithm (above 16)
    tops = (17, 18, 24) if tier == "quick" else (21, 25, 32, 48, 70, 120)
    for internal in (True, False):
        for n in tops:
            for m in sorted({0, 1, 2, 3, n // 2, n - 2, n - 1, n}):
                for part in (0, 1):
                    if not (part and not m):
                        yield [n, m, part, internal, n]


@group("C01", "single basis functions", basis_cases, chunk=4)
def basis(ctx, case):
    n, m, part, internal, degree = case
    coef = np.zeros((ref.nterms(degree), 2))
    coef[n * (n + 1) // 2 + m, part] = 1.0
    rads = [r for r in RADS if abs(np.log10(r / 6371.2)) * n < 250]
    x = grid(lats(ctx.tier), LONS if n < 9 else LONS_SHORT, rads)
    ctx.count(len(x) - 1)
    compare(ctx, x, coef, SPHERICAL, SPHERICAL, None, internal, BOTH, (None, None),
            f"n={n} m={m}", tol_rtol(degree))


# --- all frames, modes, scales -------------------------------------------------

SCALES = [(None, None), (2.5, -0.5), (-1.0, [1.0, -2.0, 0.25]), (0.0, [0.0, 3.0, -1.0]), (1e3, 0.0)]


def frame_cases(tier):
    degrees = (0, 1, 2, 3, 5, 13) if tier == "quick" else (0, 1, 2, 3, 4, 5, 8, 13, 16, 17, 20, 40)
    for degree in degrees:
        for kin in KINDS:
            for kout in KINDS:
                for mode in (POT, GRD, BOTH):
                    for internal in (True, False):
                        for isc in range(len(SCALES)):
                            yield [degree, kin, kout, mode, internal, isc]


@group("C01", "frames x modes x scales", frame_cases, chunk=8)
def frames(ctx, case):
    degree, kin, kout, mode, internal, isc = case
    coef = ref.generic_coef(degree, salt=degree, n0=True)
    x = points(kin, "quick", kout == GEODETIC)
    if ctx.tier == "quick":
        x = x[(isc % 3)::3]       # the scale variants partition the grid
    if kin == SPHERICAL:
        x = x[x[:, 2] > 100.0] if degree > 8 else x
    ctx.count(len(x) - 1)
    compare(ctx, x, coef, kin, kout, None, internal, mode, SCALES[isc],
            f"degree {degree} {kin}->{kout}", tol_rtol(degree))


# --- degree argument -----------------------------------------------------------

def degree_cases(tier):
    top = 6 if tier == "quick" else 12
    for full in list(range(top + 1)) + ([20] if tier == "quick" else [17, 20, 33]):
        for limit in range(-2, full + 3):
            for mode in (POT, GRD, BOTH):
                for internal in (True, False):
                    yield [full, limit, mode, internal]


@group("C01", "degree argument", degree_cases, chunk=8)
def degrees(ctx, case):
    full, limit, mode, internal = case
    coef = ref.generic_coef(full, salt=full + 50, n0=True)
    x = grid([-90.0, 90.0, 89.9999, 0.0, 33.0, -62.5], [0.0, 180.0, -75.5, 44.0], [6371.2, 6800.0, 5500.0])
    ctx.count(len(x) - 1)
    compare(ctx, x, coef, SPHERICAL, SPHERICAL, limit, internal, mode, (None, None),
            f"degree={limit} of {full}", tol_rtol(full))
    # coefficients above the limit have no effect at all
    if 0 <= limit < full:
        other = coef.copy()
        other[ref.nterms(limit):] = np.nan
        a = em.sheval(x, coef, SPHERICAL, SPHERICAL, mode=GRD, is_internal=internal, degree=limit)
        b = em.sheval(x, other, SPHERICAL, SPHERICAL, mode=GRD, is_internal=internal, degree=limit)
        ctx.same(b, a, "coefficients above the degree limit matter")
    # a trailing incomplete degree is not evaluated
    part = np.concatenate([coef, np.full((max(full, 1), 2), 77.0)])
    a = em.sheval(x, coef, SPHERICAL, SPHERICAL, mode=GRD, is_internal=internal)
    if full > 0:
        b = em.sheval(x, part, SPHERICAL, SPHERICAL, mode=GRD, is_internal=internal)
        ctx.same(b, a, "incomplete trailing degree changes the result")


# --- neighbourhood of the poles and high degrees --------------------------------

def pole_cases(tier):
    degrees = list(range(0, 20)) + [40] if tier == "quick" else list(range(0, 65)) + [90, 133, 200, 360, 500]
    for degree in degrees:
        for internal in (True, False):
            yield [degree, internal]


@group("C01", "polar neighbourhood and high degrees", pole_cases, chunk=1)
def poles(ctx, case):
    degree, internal = case
    coef = ref.generic_coef(degree, salt=degree + 3, n0=True)
    offs = [0.0] + [10.0 ** -k for k in range(1, 16)] + [5e-9, 5.7e-9, 5.8e-9, 3e-15] + [1.0, 5.0]
    if degree > 100:
        offs = offs[::3]
    lat = [s * (90 - o) for o in offs for s in (1, -1)] + [0.0, 20.0, -55.0]
    x = grid(lat, [0.0, 180.0, -77.7, 30.0], [6371.2, 6450.0 if internal else 6300.0])
    ctx.count(len(x) - 1)
    compare(ctx, x, coef, SPHERICAL, SPHERICAL, None, internal, BOTH, (None, None),
            f"degree {degree}", tol_rtol(degree))


# --- degrees of thousands at the poles, where the field has a closed form ---------

def pole_limit_cases(tier):
    degrees = [17, 40, 133, 720, 1000, 1023, 1025, 1030, 1440]
    return degrees if tier == "quick" else sorted(set(degrees) | set(range(17, 1500, 60)) | set(range(1500, 2601, 100)))


@group("C01", "closed form at the poles", pole_limit_cases, chunk=1)
def pole_limit(ctx, degree):
    """ terms of the order 0 and 1 of the degree n at a pole:
    P_n^0 = 1 and dP_n^1/dtheta = P_n^1/sin(theta) = sqrt(n(n+1)/2) up to the sign """
    for low in (degree, degree - 1, degree // 2):
        coef = np.zeros((ref.nterms(degree), 2))
        zonal, sector = low * (low + 1) // 2, low * (low + 1) // 2 + 1
        coef[zonal, 0], coef[sector] = 5.0, (3.0, -4.0)
        coef[sector + 1:sector + 1 + low - 1] = 7.0     # no effect at the pole
        slope = np.sqrt(low * (low + 1) / 2)
        lon = np.array([0.0, 30.0, -77.7, 180.0])
        sin, cos = np.sin(np.radians(lon)), np.cos(np.radians(lon))
        along, across = 3.0 * cos - 4.0 * sin, -3.0 * sin - 4.0 * cos
        for pole in (1, -1):
            even = 1 if pole > 0 or low % 2 == 0 else -1       # P_n^0
            tilt = 1 if pole > 0 or low % 2 == 1 else -1       # P_n^1/sin(theta)
            for internal, rad in ((True, 6374.0), (False, 6369.0)):
                ratio = rad / 6371.2
                rrp = ratio ** (-low - 2) if internal else ratio ** (low - 1)
                grow = -(low + 1) if internal else low
                x = np.stack(np.broadcast_arrays(pole * 90.0, lon, rad), -1)
                pot, grd = em.sheval(x, coef, SPHERICAL, SPHERICAL, mode=BOTH, is_internal=internal)
                what = f"degree {low} of {degree}, pole {pole}, internal {internal}"
                # the minus of the colatitude direction; its sign turns with the pole
                want = np.stack(np.broadcast_arrays(-pole * tilt * slope * rrp * along, tilt * slope * rrp * across, grow * rrp * 5.0 * even), -1)
                tol = 1e-10 * degree * rrp * max(slope * 5.0, abs(grow) * 5.0)
                ctx.close(grd, want, rtol=0, atol=tol, what=f"{what}: gradient")
                ctx.close(pot, np.full(4, rad * rrp * 5.0 * even), rtol=1e-10 * degree, atol=0, what=f"{what}: potential")
                for mode, one in ((POT, pot), (GRD, grd)):
                    ctx.same(em.sheval(x, coef, SPHERICAL, SPHERICAL, mode=mode, is_internal=internal), one, f"{what}: mode {mode}")
                ctx.count(12)


# --- the time-dependent and the Fourier evaluators on constant coefficients -----

def evaluator_cases(tier):
    for degree in ((1, 3, 6) if tier == "quick" else (1, 2, 3, 4, 6, 8, 12)):
        for kin in KINDS:
            for kout in KINDS:
                for mode in (POT, GRD, BOTH):
                    for internal in (True, False):
                        yield [degree, kin, kout, mode, internal]


@group("C01", "time-dependent evaluators", evaluator_cases, chunk=8)
def evaluators(ctx, case):
    degree, kin, kout, mode, internal = case
    coef = ref.generic_coef(degree, salt=degree + 70)
    x = points(kin, "quick", kout == GEODETIC)[::5]
    if kin == SPHERICAL:
        x = x[x[:, 2] > 100.0]
    nm, cv = [], []
    for n, m in nm_list(degree)[1:]:
        nm.append((n, m)); cv.append(coef[n*(n+1)//2+m, 0])
        if m:
            nm.append((n, -m)); cv.append(coef[n*(n+1)//2+m, 1])
    nm, cv = np.array(nm, "i4"), np.array(cv)
    pot, grd = ref.field(x, coef, kin, kout, None, internal)
    psz, gsz = size(x, coef, kin, None, internal)
    scale = dict(scale_potential=-2.0, scale_gradient=[0.5, -1.0, 3.0])
    pot, grd = pot * -2, grd * np.array([0.5, -1.0, 3.0])
    ctx.count(len(x) * 2 - 1)
    # linear in time, zero at t=0, the model at t=1; offset cancels at t=1
    half = len(cv) // 2
    sets = [
        (np.array([0.0, 2.0]), np.stack([0 * cv[:half], 2 * cv[:half]], -1), nm[:half], 2),
        (np.array([0.0, 1.0, 5.0]), np.stack([9 + cv[half:], cv[half:], 7 * cv[half:]], -1), nm[half:], 1),
    ]
    res = {"shevaltemp": _pymm.shevaltemp(
        np.ones(len(x)), x, sets, coord_type_in=kin, coord_type_out=kout, mode=mode,
        is_internal=internal, **scale)}
    # Fourier series with the constant term only, plus a term vanishing at t2 = 1/4
    ab = np.zeros((len(cv), 1, 2, 2))
    ab[:, 0, 0, 0] = cv
    ab[:, 0, 1, 0] = 5.0
    res["sheval2dfs"] = _pymm.sheval2dfs(
        np.zeros(len(x)), np.full(len(x), 0.25), x, (ab, nm, 0, 0, 1.0, 2*np.pi),
        coord_type_in=kin, coord_type_out=kout, mode=mode, is_internal=internal, **scale)
    for name, got in res.items():
        gpot, ggrd = {POT: (got, None), GRD: (None, got), BOTH: got if mode == BOTH else None}[mode]
        if gpot is not None:
            ctx.close(gpot, pot, rtol=1e-9, atol=0, scale=2 * psz, what=f"{name} potential")
        if ggrd is not None:
            ctx.close(ggrd, grd, rtol=1e-9, atol=0, scale=gsz[:, None] * np.array([0.5, 1, 3.0]),
                      what=f"{name} gradient")
