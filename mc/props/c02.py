""" C02 - building blocks of the expansion match their definitions and compose """
import numpy as np
import eoxmagmod as em
from .. import ref
from ..core import group
from ..common import *

EPS = 2.3e-16


def legendre_cases(tier):
    top = 40 if tier == "quick" else 130
    for degree in list(range(top + 1)) + ([90] if tier == "quick" else [200, 360, 500]):
        for form in ("array", "scalar", "2d"):
            if form != "array" and degree > 24:
                continue
            yield [degree, form]


@group("C02", "legendre", legendre_cases, chunk=2)
def legendre(ctx, case):
    degree, form = case
    lat = np.array(sorted(set(LATS + LATS_MORE)) + [-0.0])
    if degree > 150:
        lat = lat[::4]
    p, dp, _ = ref.legendre(lat, degree)
    if form == "array":
        gp, gd = em.legendre(lat, degree)
    elif form == "2d":
        gp, gd = em.legendre(lat.reshape(1, -1, 1), degree)
        ctx.require(gp.shape == (1, lat.size, 1, p.shape[-1]), f"legendre shape {gp.shape}")
        gp, gd = gp[0, :, 0], gd[0, :, 0]
    else:
        res = [em.legendre(float(v), degree) for v in lat]
        gp, gd = np.array([r[0] for r in res]), np.array([r[1] for r in res])
    ctx.count(lat.size)
    # conditioning: an error of an ulp in the latitude acts through the derivative
    tol = 60 * EPS * (degree + 2)
    ctx.close(gp, p, rtol=1e-11, atol=tol, what=f"P degree {degree}")
    n = np.concatenate([np.full(k + 1, k) for k in range(degree + 1)])
    ctx.close(gd, -dp, rtol=1e-11, atol=0, scale=np.broadcast_to(tol * (n + 1.0) / 1e-11, dp.shape),
              what=f"dP degree {degree}")


def sum_rule_cases(tier):
    degrees = [133, 720, 1023, 1026, 1440]
    return degrees if tier == "quick" else degrees + [1100, 1700, 2000, 2300, 2600]


@group("C02", "sum rules of high degrees", sum_rule_cases, chunk=1)
def sum_rules(ctx, degree):
    """ the squares of all the orders of a degree sum up to 1 (addition theorem) and those
    of the derivatives to n(n+1)/2; exact values at the poles and the equator """
    lat = np.array([0.0, 1e-9, 10.0, 45.0, 60.0, 75.0, 85.0, 89.0, 89.9, 89.99, 89.999, 89.9999] + [90 - 10.0**-k for k in range(5, 15)] + [90.0])
    for value in np.concatenate([lat, -lat]):
        p, dp = em.legendre(value, degree)
        for n in sorted({1, 2, 15, 16, 17, degree // 3, degree // 2, degree - 1, degree}):
            part = slice(n * (n + 1) // 2, (n + 1) * (n + 2) // 2)
            ctx.close((p[part]**2).sum(), 1.0, rtol=0, atol=2e-9, what=f"P degree {n} of {degree} at {value!r}")
            ctx.close((dp[part]**2).sum() * 2 / (n * (n + 1)), 1.0, rtol=0, atol=2e-9, what=f"dP degree {n} of {degree} at {value!r}")
            if abs(value) == 90:
                even, tilt = (1, 1) if value > 0 else ((-1)**n, (-1)**(n + 1))
                slope = np.sqrt(n * (n + 1) / 2)
                want, wantd = np.zeros(n + 1), np.zeros(n + 1)
                want[0], wantd[1] = even, -tilt * slope * (1 if value > 0 else -1)
                ctx.close(p[part], want, rtol=0, atol=1e-9, what=f"P degree {n} of {degree} at the pole")
                ctx.close(dp[part], wantd, rtol=0, atol=1e-9 * slope, what=f"dP degree {n} of {degree} at the pole")
        ctx.require(bool(np.isfinite(p).all() and np.isfinite(dp).all()), f"degree {degree} at {value!r} is finite")
        ctx.count(1)


def lcs_cases(tier):
    for degree in list(range(0, 33)) + ([100] if tier == "quick" else [64, 100, 200, 360, 1000]):
        for fast in (None, True, False):
            for form in ("array", "scalar", "2d"):
                yield [degree, fast, form]


@group("C02", "loncossin", lcs_cases, chunk=4)
def loncossin(ctx, case):
    degree, fast, form = case
    lon = np.array(LONS + [float(k) * 15 + 0.123 for k in range(-24, 25)])
    kw = {} if fast is None else {"fast_alg": fast}
    if form == "array":
        got = em.loncossin(lon, degree, **kw)
    elif form == "2d":
        got = em.loncossin(lon.reshape(-1, 1), degree, **kw)
        ctx.require(got.shape == (lon.size, 1, degree + 1, 2), f"shape {got.shape}")
        got = got[:, 0]
    else:
        got = np.array([em.loncossin(float(v), degree, **kw) for v in lon])
    ctx.count(lon.size)
    s, c = ref.sincosd(lon[:, None] * np.arange(degree + 1).astype(ref.LD))
    expected = np.stack([c, s], -1)
    scale = EPS * 20 * (degree + 2) * np.maximum(1, np.abs(lon) / 90)
    ctx.observe(got)
    ctx.close((got - expected) / scale[:, None, None], 0 * expected, rtol=0, atol=1.0,
              what=f"error of the cos/sin series of degree {degree} in units of its bound")


def rrp_cases(tier):
    for degree in list(range(0, 33)) + ([60] if tier == "quick" else [60, 80, 120]):
        for internal in (True, False):
            for radius in (None, 6371.2, 6378.137, 1.0, 1e-3, 1e5):
                for form in ("array", "scalar", "2d"):
                    yield [degree, internal, radius, form]


@group("C02", "relradpow", rrp_cases, chunk=16)
def relradpow(ctx, case):
    degree, internal, radius, form = case
    ref_rad = ref.RAD0 if radius is None else ref.LD(radius)
    rad = np.array([0.25, 0.99, 1.0, 1 + 1e-9, 1.5, 3.75]) * float(ref_rad)
    if degree < 33 and radius is None:
        rad = np.concatenate([rad, [1.0, 1e-2, 6371.2, 7000.0, 1e6]])
    kw = {} if radius is None else {"reference_radius": radius}
    if not internal or form == "2d":
        kw["is_internal"] = internal
    if form == "array":
        got = em.relradpow(rad, degree, **kw)
    elif form == "2d":
        got = em.relradpow(rad.reshape(1, -1), degree, **kw)[0]
    else:
        got = np.array([em.relradpow(float(v), degree, **kw) for v in rad])
    ctx.count(rad.size)
    ratio = np.asarray(rad, ref.LD) / ref_rad
    k = np.arange(degree + 1).astype(ref.LD)
    expected = ratio[:, None] ** (-(k + 2)) if internal else ratio[:, None] ** (k - 1)
    expected = expected.astype(ref.LD)
    ctx.close(got / expected.astype(float), np.ones_like(got), rtol=0,
              atol=10 * EPS * (degree + 3), what=f"radial powers degree {degree}")


def sum_cases(tier):
    degrees = (0, 1, 2, 3, 5, 8, 13, 17, 20) if tier == "quick" else (0, 1, 2, 3, 4, 5, 8, 13, 16, 17, 18, 20, 25, 40, 60)
    for degree in degrees:
        for limit in sorted({-1, 0, 1, degree // 2, degree - 1, degree, degree + 1, -7}):
            for internal in (True, False):
                for fast in (True, False):
                    yield [degree, limit, internal, fast]


@group("C02", "sums from separate blocks", sum_cases, chunk=4)
def sums(ctx, case):
    degree, limit, internal, fast = case
    rads = [6371.2, 6871.2, 20000.0] if internal else [6371.2, 5000.0, 6481.2]
    x = grid(lats("quick") + [20.0 * k + 1 for k in range(-4, 5)], LONS_SHORT, rads)
    coef = ref.generic_coef(degree, salt=degree + 9, n0=True)
    lp, ldp = em.legendre(x[:, 0], degree)
    lcs = em.loncossin(x[:, 1], degree, fast_alg=fast)
    rrp = em.relradpow(x[:, 2], degree, is_internal=internal)
    pot = em.spharpot(x[:, 2], coef, lp, rrp, lcs, degree=limit)
    grd = em.sphargrd(x[:, 0], coef, lp, ldp, rrp, lcs, is_internal=internal, degree=limit)
    ctx.count(len(x))
    epot, egrd = ref.sh_eval(x[:, 0], x[:, 1], x[:, 2], coef, limit, internal)
    size = float(np.abs(coef).sum()) * (degree + 2)
    if not internal:
        size *= 1.0 if degree == 0 else float((6481.2 / 6371.2) ** degree)
    up = np.maximum(1.0, (x[:, 2] / 6371.2) ** degree) if not internal else np.ones(len(x))
    psize = size * 6371.2 * up
    ctx.close(pot, epot, rtol=1e-11, atol=0, scale=psize, what="potential sum")
    ctx.close(grd, egrd, rtol=1e-11, atol=0, scale=(size * up * (degree + 1))[:, None] + 0 * egrd.astype(float),
              what="gradient sum")
    # the fused evaluation at the same points
    fpot, fgrd = em.sheval(
        x, coef, SPHERICAL, SPHERICAL, mode=em.POTENTIAL_AND_GRADIENT,
        is_internal=internal, degree=limit)
    ctx.close(pot, fpot, rtol=1e-11, atol=0, scale=psize, what="split vs fused potential")
    ctx.close(grd, fgrd, rtol=1e-11, atol=0, scale=(size * up * (degree + 1))[:, None] + 0 * fgrd,
              what="split vs fused gradient")


def single_cases(tier):
    top = 6 if tier == "quick" else 14
    for n in range(top + 1):
        for m in range(n + 1):
            for part in (0, 1):
                if part and not m:
                    continue
                for internal in (True, False):
                    for block in (0, 2, 5):
                        yield [n, m, part, internal, block]


@group("C02", "every single term", single_cases, chunk=8)
def single(ctx, case):
    """ one coefficient; blocks computed to a higher degree than the
    coefficients (the sums must use the common degree) """
    n, m, part, internal, extra = case
    coef = np.zeros((ref.nterms(n), 2))
    coef[n * (n + 1) // 2 + m, part] = 2.0
    degree = n + extra
    x = grid([-90.0, 90.0, 0.0, 41.0, -67.5, 89.999, -89.999999], [0.0, 180.0, -90.0, 33.0, -155.0], [6371.2, 7371.2, 4000.0])
    lp, ldp = em.legendre(x[:, 0], degree)
    lcs = em.loncossin(x[:, 1], degree)
    rrp = em.relradpow(x[:, 2], degree, is_internal=internal)
    pot = em.spharpot(x[:, 2], coef, lp, rrp, lcs)
    grd = em.sphargrd(x[:, 0], coef, lp, ldp, rrp, lcs, internal)
    ctx.count(len(x))
    epot, egrd = ref.sh_eval(x[:, 0], x[:, 1], x[:, 2], coef, None, internal)
    pscale = 2 * 6371.2 * np.maximum(1, np.maximum(x[:, 2] / 6371.2, 6371.2 / x[:, 2]) ** (n + 2))
    ctx.close(pot, epot, rtol=1e-12, atol=0, scale=pscale, what=f"potential n={n} m={m}")
    ctx.close(grd, egrd, rtol=1e-12, atol=0, scale=(pscale / 6371.2 * (n + 1))[:, None] + np.zeros((1, 3)),
              what=f"gradient n={n} m={m}")


def radius_cases(tier):
    for degree in (0, 1, 4, 9):
        for radius in (6371.2, 1.0, 3000.0, 6378.137):
            for internal in (True, False):
                yield [degree, radius, internal]


@group("C02", "other reference radii", radius_cases, chunk=4)
def radii(ctx, case):
    """ The gradient sum needs no reference radius besides the radial powers:
    with another reference radius it is the gradient of the expansion scaled
    by that radius; the potential sum uses the same powers. """
    degree, radius, internal = case
    coef = ref.generic_coef(degree, salt=degree + 19, n0=True)
    x = grid([-90.0, 12.0, 77.0], [0.0, 130.0], np.array([0.9, 1.0, 1.4]) * radius)
    lp, ldp = em.legendre(x[:, 0], degree)
    lcs = em.loncossin(x[:, 1], degree)
    rrp = em.relradpow(x[:, 2], degree, reference_radius=radius, is_internal=internal)
    grd = em.sphargrd(x[:, 0], coef, lp, ldp, rrp, lcs, is_internal=internal)
    _, egrd = ref.sh_eval(x[:, 0], x[:, 1], x[:, 2], coef, None, internal, rad0=ref.LD(radius))
    ctx.close(grd, egrd, rtol=1e-11, atol=0, scale=float(np.abs(coef).sum()) * (degree + 1) * 30,
              what=f"gradient with reference radius {radius}")
    ctx.count(len(x) - 1)
