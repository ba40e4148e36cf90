""" C10 - vector rotations are orthogonal and consistent with coordinates """
import itertools
import numpy as np
import eoxmagmod as em
from ..core import group
from .. import ref
from ..ref import LD, GEODETIC, SPHERICAL, CARTESIAN
from .c09 import POLAR, EQUATOR, MIDDLE, LONS

KINDS = (GEODETIC, SPHERICAL, CARTESIAN)
NAMES = {GEODETIC: "geodetic", SPHERICAL: "spherical", CARTESIAN: "cartesian"}
EYE = np.eye(3)


def eps_of(lat, lon):
    """ rounding of the angles in radians """
    return 1e-15 * (1 + (np.abs(lat) + np.abs(lon)) / 40)


def tangents(lat, lon):
    """ unit tangents of the spherical coordinates as limits of differences of
    positions (extended precision), rows north, east, up, in Cartesian axes """
    lat, lon = LD(lat), LD(lon)
    h = LD(2) ** -20
    at = lambda a, b, r: ref.to_cart(np.array([a, b, r], LD), SPHERICAL)
    up = at(lat, lon, 2) - at(lat, lon, 1)
    dif = lambda k: (at(lat + k, lon, 1) - at(lat - k, lon, 1)) / (2 * k * ref.D2R)
    north = (4 * dif(h) - dif(2 * h)) / 3
    east = np.cross(north.astype(float), up.astype(float))
    return np.array([north.astype(float), east, up.astype(float)])


# --- the three elementary rotations -------------------------------------------------

def angle_cases(tier):
    lats = POLAR + EQUATOR + MIDDLE
    if tier == "thorough":
        lats = lats + [x / 2 for x in range(-179, 180)]
    return [[lat] for lat in lats]


@group("C10", "elementary rotations", angle_cases, chunk=4)
def elementary(ctx, case):
    lat = case[0]
    for lon in LONS:
        tol = eps_of(lat, lon)
        exact = ref.frame(np.array([lat, lon, 1.0]), SPHERICAL).astype(float)     # rows
        # sph -> cart of the local basis vectors gives the frame axes
        axes = em.vrot_sph2cart(EYE, np.full(3, lat), np.full(3, lon))
        back = em.vrot_cart2sph(EYE, np.full(3, lat), np.full(3, lon))
        ctx.count(2)
        if not ctx.close(axes, exact, rtol=0, atol=3 * tol, what=f"axes at {lat!r} {lon!r}"):
            return
        if not ctx.close(back, exact.T, rtol=0, atol=3 * tol, what=f"opposite rotation at {lat!r} {lon!r}"):
            return
        ctx.close(axes @ axes.T, EYE, rtol=0, atol=2e-15, what="orthogonality")
        ctx.close(np.linalg.det(axes), -1.0 if np.linalg.det(exact) < 0 else 1.0, rtol=0, atol=4e-15, what="handedness")
        ctx.close(axes.T @ back.T, EYE, rtol=0, atol=2e-15, what="inverse")
        if abs(lat) < 89 or abs(lat) == 90:
            ctx.close(axes, tangents(lat, lon), rtol=0, atol=1e-10 + 3 * tol, what="tangents")
    for other in POLAR[::5] + EQUATOR[::5] + MIDDLE[::4] + [lat]:
        delta = other - lat
        rot = em.vrot_sph2geod(EYE, np.full(3, delta))
        s, c = (float(v) for v in ref.sincosd(delta))
        # turning about the east axis: the new frame's latitude is larger by delta
        exact = np.array([[c, 0, s], [0, 1, 0], [-s, 0, c]])
        fro = ref.frame(np.array([lat, 0.0, 1.0]), SPHERICAL).astype(float)
        to = ref.frame(np.array([lat, 0.0, 1.0]) + [delta, 0, 0], SPHERICAL).astype(float)
        ctx.close(rot, fro @ to.T, rtol=0, atol=4 * eps_of(lat, other), what=f"turn by {delta!r} from {lat!r}")
        ctx.close(rot @ rot.T, EYE, rtol=0, atol=2e-15, what="orthogonality")
        ctx.close(em.vrot_sph2geod(rot, np.full(3, -delta)), EYE, rtol=0, atol=2e-15, what="opposite turn")
        ctx.close(em.vrot_sph2geod(em.vrot_sph2geod(EYE, np.full(3, delta)), np.full(3, 0.125)), em.vrot_sph2geod(EYE, np.full(3, delta + 0.125)),
                  rtol=0, atol=3e-15, what="turns add up")
        ctx.count(4)


# --- vrotate at points of every system ------------------------------------------------

HGT = [0.0, -100.0, 110.0, 450.0, 36000.0]
RAD = [6371.2, 5000.0, 6800.0, 42000.0]
VECTORS = [(1.0, 0.0, 0.0), (0.0, 1.0, 0.0), (0.0, 0.0, 1.0), (1.0, -2.0, 3.0), (-2e4, 3e3, 4.5e4), (1e-300, 0.0, 0.0), (-0.0, 0.0, 0.0), (1e200, 1e200, -1e200)]


def point_cases(tier):
    lats = POLAR + EQUATOR + MIDDLE if tier == "thorough" else POLAR[::3] + POLAR[-4:] + EQUATOR[::4] + MIDDLE[::3]
    for kind in (GEODETIC, SPHERICAL):
        for lat in lats:
            for vert in HGT if kind == GEODETIC else RAD:
                yield [kind, lat, vert]


@group("C10", "rotations between systems", point_cases, chunk=8)
def systems(ctx, case):
    """ all systems of one point: matrices, inverses, and all chains """
    kind, lat, vert = case
    lons = LONS if ctx.thorough else LONS[:10] + LONS[15:]
    for lon in lons:
        if kind == GEODETIC:
            geod = np.array([lat, lon, vert])
            sph = em.convert(geod, GEODETIC, SPHERICAL)
        else:
            sph = np.array([lat, lon, vert])
            geod = em.convert(sph, SPHERICAL, GEODETIC)
        coords = {GEODETIC: geod, SPHERICAL: sph, CARTESIAN: em.convert(sph, SPHERICAL, CARTESIAN)}
        tol = 4 * eps_of(lat, lon) + 1e-15
        frames = {k: ref.frame(coords[k], k).astype(float) for k in KINDS}
        mats = {}
        tile = lambda v: np.tile(v, (3, 1))
        for a, b in itertools.product(KINDS, repeat=2):
            if CARTESIAN == a and b != CARTESIAN:
                cin = None if lon == 0 else tile(coords[a])
            else:
                cin = tile(coords[a])
            mats[a, b] = em.vrotate(EYE, cin, tile(coords[b]), a, b)
            ctx.count(1)
            if not ctx.close(mats[a, b], frames[a] @ frames[b].T, rtol=0, atol=2 * tol, what=f"{NAMES[a]} to {NAMES[b]} at {coords[a].tolist()}"):
                return
            m = mats[a, b]
            ctx.close(m @ m.T, EYE, rtol=0, atol=3e-15, what=f"{NAMES[a]} to {NAMES[b]}: lengths and angles")
        for a, b, c in itertools.product(KINDS, repeat=3):
            ctx.transition(1)
            if not ctx.close(mats[a, b] @ mats[b, c], mats[a, c], rtol=0, atol=2 * tol, what=f"{NAMES[a]} via {NAMES[b]} to {NAMES[c]}"):
                return
        for a, b in itertools.product(KINDS, repeat=2):
            for v in VECTORS:
                v = np.array(v)
                w = em.vrotate(v, coords[a], coords[b], a, b)
                big = np.abs(v).max()
                ctx.count(2)
                if not ctx.close(w, v @ mats[a, b] if big < 1e100 else v / big @ mats[a, b] * big, rtol=0, atol=1e-14 * big, what=f"vector {v.tolist()} {NAMES[a]} to {NAMES[b]}"):
                    return
                u = em.vrotate(w, coords[b], coords[a], b, a)
                if not ctx.close(u, v, rtol=0, atol=2e-14 * big, what=f"vector {v.tolist()} {NAMES[a]} to {NAMES[b]} and back"):
                    return
                if big < 1e100:
                    ctx.close(em.vnorm(w), np.linalg.norm(v) if big > 1e-100 else em.vnorm(v), rtol=1e-14, atol=1e-290, what="length")
    ctx.state(kind, lat, vert)


# --- inclination, declination, intensity ------------------------------------------------

def vector_cases(tier):
    steps = [0.0, 1.0, -1.0, 0.5, -0.25, 1e-3, -1e-7, 1e-12, -1e-16, 3e4] + ([-0.0, 1e-5, 2.0, -3e4, 1e-150, 7e3] if tier == "thorough" else [-0.0])
    for x in steps:
        for y in steps:
            yield [x, y, steps]


@group("C10", "inclination and declination", vector_cases, chunk=8)
def inclination(ctx, case):
    x, y, steps = case
    v = np.array([[x, y, z] for z in steps])
    inc, dec, norm = em.vincdecnorm(v)
    ctx.count(len(v))
    ctx.require(bool(np.all(np.abs(inc) <= 90) and np.all(np.abs(dec) <= 180) and np.all(norm >= 0)), "ranges")
    si, ci = ref.sincosd(inc)
    sd, cd = ref.sincosd(dec)
    again = np.stack([norm * ci * cd, norm * ci * sd, -norm * si], -1).astype(float)
    scale = np.broadcast_to(np.abs(v).max(-1, keepdims=True), v.shape)
    for k in range(len(v)):
        if not ctx.close(again[k], v[k], rtol=0, atol=4e-15 * scale[k, 0] + 1e-300, what=f"vector {v[k].tolist()}"):
            return
        exact = np.sqrt((v[k].astype(LD) ** 2).sum())
        ctx.close(norm[k], float(exact), rtol=1e-15, atol=0, what="intensity")
        ctx.close(em.vnorm(v[k]), float(exact), rtol=1e-15, atol=0, what="vnorm")
        horizontal = np.hypot(LD(x), LD(y))
        ctx.close(inc[k], float(np.arctan2(-LD(v[k][2]), horizontal) / ref.D2R), rtol=2e-15, atol=1e-300, what="inclination")
        ctx.close(dec[k], float(np.arctan2(LD(y), LD(x)) / ref.D2R), rtol=2e-15, atol=1e-300, what="declination")
    z = [em.vincdecnorm(row) for row in v]
    ctx.same(np.array(z, float).T, np.array([inc, dec, norm]), "single vectors")


@group("C10", "norms of other dimensions", lambda tier: [[n] for n in range(1, 8)], chunk=1)
def norms(ctx, case):
    n = case[0]
    v = ref.generic(5, n, salt=500) * 30
    ctx.close(em.vnorm(v), np.sqrt((v.astype(LD) ** 2).sum(-1)).astype(float), rtol=1e-15, atol=0, what=f"vectors of {n}")
    ctx.close(em.vnorm(np.zeros((0, n))), np.zeros(0), what="no vectors")


@group("C10", "unsupported systems", lambda tier: [[a, b] for a in (-1, 0, 1, 2, 3, 99) for b in (-1, 0, 1, 2, 3, 99)], chunk=4)
def unsupported(ctx, case):
    a, b = case
    x = np.array([[10.0, 20.0, 6371.2]])
    if a in KINDS and b in KINDS:
        ctx.require(em.vrotate(np.ones((1, 3)), x, x, a, b).shape == (1, 3), "shape")
    elif a != b:
        ctx.raises(lambda: em.vrotate(np.ones((1, 3)), x, x, a, b), f"systems {a} {b}", (ValueError,))
