""" C09 - coordinate conversions are mutually consistent """
import itertools
import numpy as np
import eoxmagmod as em
from ..core import group
from .. import ref, common
from ..ref import LD, GEODETIC, SPHERICAL, CARTESIAN

KINDS = (GEODETIC, SPHERICAL, CARTESIAN)
NAMES = {GEODETIC: "geodetic", SPHERICAL: "spherical", CARTESIAN: "cartesian"}

POLAR = [s * (90.0 - 10.0**-k) for k in range(0, 15) for s in (1, -1)] + [90.0, -90.0, np.nextafter(90.0, 0), np.nextafter(-90.0, 0)]
EQUATOR = [s * 10.0**-k for k in (0, 1, 2, 3, 5, 7, 9, 12, 15, 18, 30, 300) for s in (1, -1)] + [0.0, -0.0]
MIDDLE = [float(v) for v in range(-85, 90, 5)] + [45.192, -35.264, 54.7356]
LONS = [0.0, -0.0, 180.0, -180.0, 90.0, -90.0, 33.3, -123.456, 179.9999999999, -179.9999999999, 1e-12, -1e-300, 45.0, -135.0,
        270.0, 359.5, 360.0, -361.25, 719.0, 7265.5]
HEIGHTS = [0.0, -0.0, -1e-9, 1e-9, -11.0, -100.0, -400.0, 0.5, 110.0, 450.0, 800.0, 20200.0, 35786.0, 384400.0, 1.5e8, 1e12]
DEEP = [-1000.0, -2900.0, -5000.0]
RADII = [6371.2, 6378.137, 6356.7523142, 6357.0, 6371.0, 6271.0, 5000.0, 3480.0, 1500.0, 7000.0, 42164.0, 384400.0, 1.5e8, 1e12]


def blocks(tier):
    """ small blocks of points of every system """
    lats = POLAR + EQUATOR + MIDDLE
    if tier == "thorough":
        lats = lats + [x / 4 for x in range(-359, 360)] + [s * (90.0 - 3 * 2.0**-k) for k in range(0, 46) for s in (1, -1)]
    for kind in (GEODETIC, SPHERICAL):
        for lat in lats:
            yield [kind, lat]
    for k in range(len(RADII)):
        yield [CARTESIAN, k]


def points(kind, value, tier):
    if kind == CARTESIAN:
        r = RADII[value]
        out = [p for p in common.axis_points([r]) if np.linalg.norm(p) > 1000]
        steps = [0.0, 1.0, -1.0, 1e-5, -1e-9, 0.37, -0.77, 1e-14, 1e-3]
        for x, y, z in itertools.product(steps, repeat=3):
            norm = np.sqrt(x * x + y * y + z * z)
            if norm > 0.3:
                out.append((r * x / norm, r * y / norm, r * z / norm))
        return np.array(out)
    lons = LONS if tier == "thorough" or abs(value) in (90.0, 45.0, 0.0) else LONS[:10] + LONS[14:]
    return common.grid([value], lons, HEIGHTS + DEEP if kind == GEODETIC else RADII)


def position_error(a, b):
    """ distance of Cartesian points over the distance from the centre """
    return np.linalg.norm((a - b).astype(float), axis=-1) / np.linalg.norm(b.astype(float), axis=-1)


@group("C09", "definitions and chains", blocks, chunk=4)
def conversions(ctx, case):
    kind, value = case
    x = points(kind, value, ctx.tier)
    cart = ref.to_cart(x, kind)
    dist = np.linalg.norm(cart.astype(float), axis=-1)
    eps = 3e-15 + (3e-17 * np.abs(x[:, 1]) if kind != CARTESIAN else 0)
    done = {}
    for kout in KINDS:
        what = f"{NAMES[kind]} to {NAMES[kout]}"
        got = em.convert(x, kind, kout)
        done[kout] = got
        ctx.count(len(x))
        if not ctx.require(got.shape == x.shape and np.all(np.isfinite(got)), f"{what}: not finite"):
            return
        if kout == kind:
            ctx.same(got, x, what)
            continue
        ctx.observe(got)
        # the defining formulas
        exact = ref.convert(x, kind, kout).astype(float)
        if kout == CARTESIAN:
            if not ctx.require(bool(np.all(position_error(got, cart) <= eps * 3)), f"{what}: position error {position_error(got, cart).max():.3g}"):
                return
        else:
            # 2e-14 rad of latitude; the height loses a factor 1/e^2
            size = np.broadcast_to(np.maximum(dist, 6371.0), dist.shape)
            if not ctx.close(got[:, 0], exact[:, 0], rtol=0, atol=2e-12, what=f"{what} latitude"):
                return
            if not ctx.require(bool(np.all(np.abs(got[:, 2] - exact[:, 2]) <= (2e-13 if kout == GEODETIC else 2e-15) * size)),
                               f"{what}: vertical error {np.abs(got[:, 2] - exact[:, 2]).max():.3g}"):
                return
            off = np.hypot(*cart.astype(float)[:, :2].T) if kind == CARTESIAN else np.ones(len(x))
            turn = np.abs(np.remainder(got[:, 1] - exact[:, 1] + 180, 360) - 180)
            if not ctx.require(bool(np.all((turn <= 1e-13 + 4e-16 * np.abs(exact[:, 1])) | (off == 0))), f"{what}: longitude error {turn.max():.3g}"):
                return
            ctx.require(bool(np.all(np.abs(got[:, 0]) <= 90)), f"{what}: latitude out of range")
            if kind == CARTESIAN:
                ctx.require(bool(np.all(np.abs(got[:, 1]) <= 180)), f"{what}: longitude out of range")
            else:
                ctx.close(got[:, 1], x[:, 1], rtol=4e-16, atol=0, what=f"{what}: longitude changed")
            if kout == SPHERICAL:
                ctx.require(bool(np.all(got[:, 2] > 0)), f"{what}: radius not positive")
        # direct definition of the reached point, in the other direction
        back = ref.to_cart(got, kout)
        ctx.require(bool(np.all(position_error(back, cart) <= 3e-13)), f"{what}: reached point is off by {position_error(back, cart).max():.3g}")
    for mid, last in itertools.product(KINDS, repeat=2):
        if mid == kind:
            continue
        what = f"{NAMES[kind]} to {NAMES[mid]} to {NAMES[last]}"
        chain = em.convert(done[mid], mid, last)
        ctx.count(len(x))
        ctx.transition(1)
        a, b = ref.to_cart(chain, last), ref.to_cart(done[last], last)
        if not ctx.require(bool(np.all(position_error(a, b) <= 3e-13)), f"{what}: off by {position_error(a, b).max():.3g}"):
            return
        if last != CARTESIAN:
            if not ctx.close(chain[:, 0], done[last][:, 0], rtol=0, atol=5e-12, what=f"{what} latitude"):
                return
            size = np.maximum(dist, 6371.0)
            ctx.require(bool(np.all(np.abs(chain[:, 2] - done[last][:, 2]) <= 4e-13 * size)), f"{what}: vertical difference")
            if mid != CARTESIAN:
                ctx.close(chain[:, 1], done[last][:, 1], rtol=1e-15, atol=0, what=f"{what} longitude")
    ctx.state(kind, value)


# --- ordering: no folding of latitudes, longitudes or heights -----------------------------

@group("C09", "monotony", lambda tier: [[k, m, r] for k in (GEODETIC, SPHERICAL) for m in (GEODETIC, SPHERICAL, CARTESIAN) if k != m
                                      for r in (HEIGHTS[2:] if k == GEODETIC else RADII[:9])], chunk=2)
def monotony(ctx, case):
    """ latitude order, longitude order and height order survive a conversion """
    kin, kout, vert = case
    if kin == SPHERICAL and vert < 3000 and kout == GEODETIC:
        return
    half = np.unique([v for v in POLAR + EQUATOR[:14] + MIDDLE if v == 90 or 1e-9 <= v <= 90 - 1e-9])
    half = half[np.append(np.diff(half) > 1e-10, True)]
    lats = np.concatenate([-half[::-1], half])
    x = np.stack([lats, np.full(len(lats), 20.0), np.full(len(lats), vert)], -1)
    y = em.convert(x, kin, kout)
    if kout == CARTESIAN:
        ctx.require(bool(np.all(np.diff(np.arctan2(y[:, 2], np.hypot(y[:, 0], y[:, 1]))) > 0)), "latitudes not in order")
    else:
        ctx.require(bool(np.all(np.diff(y[:, 0]) > 0)), "latitudes not in order")
        ctx.require(y[0, 0] == -90 and y[-1, 0] == 90, f"poles at {y[0, 0]!r} {y[-1, 0]!r}")
        ctx.require(bool(np.all(np.sign(y[:, 0]) == np.sign(lats))), "hemisphere changed")
    ctx.close(y[::-1] * ([1, 1, -1] if kout == CARTESIAN else [-1, 1, 1]),
              em.convert(x * [-1, 1, 1], kin, kout)[::-1], rtol=1e-13, atol=1e-9, what="mirror symmetry")
    ctx.count(len(lats))


# --- arguments -----------------------------------------------------------------------------

@group("C09", "unsupported systems", lambda tier: [[a, b] for a in (-1, 0, 1, 2, 3, 99) for b in (-1, 0, 1, 2, 3, 99)], chunk=4)
def unsupported(ctx, case):
    a, b = case
    x = np.array([[10.0, 20.0, 6371.2]])
    if a in KINDS and b in KINDS:
        ctx.require(em.convert(x, a, b).shape == (1, 3), "shape")
    else:
        ctx.raises(lambda: em.convert(x, a, b), f"systems {a} {b}", (ValueError,))


@group("C09", "undefined coordinates", lambda tier: [[a, b, k] for a in KINDS for b in KINDS for k in range(3)], chunk=4)
def undefined(ctx, case):
    """ an undefined coordinate never yields a defined point """
    a, b, k = case
    x = np.array([10.0, 20.0, 6371.2])
    x[k] = np.nan
    y = em.convert(x, a, b)
    ctx.require(bool(np.any(np.isnan(y))), f"undefined coordinate {k} gives {y}")


@group("C09", "constants", lambda tier: [["values"]], chunk=1)
def constants(ctx, case):
    ctx.require((em.GEODETIC_ABOVE_WGS84, em.GEOCENTRIC_SPHERICAL, em.GEOCENTRIC_CARTESIAN) == KINDS, "system codes")
    ctx.close(em.convert([0.0, 0.0, 0.0], GEODETIC, CARTESIAN), [6378.137, 0, 0], rtol=1e-15, atol=1e-12, what="equatorial radius")
    ctx.close(em.convert([90.0, 0.0, 0.0], GEODETIC, SPHERICAL)[2], 6378.137 * (1 - 1 / 298.257223563), rtol=0, atol=1e-6, what="polar radius")
