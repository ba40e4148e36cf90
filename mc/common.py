""" Alphabets and helpers shared by the property modules. """
import numpy as np
from . import ref
from .ref import GEODETIC, SPHERICAL, CARTESIAN

KINDS = (GEODETIC, SPHERICAL, CARTESIAN)

# boundary-rich alphabets
LATS = [-90.0, 90.0, 0.0, -0.0, 45.0, -45.0, 60.0, -30.0, 12.345, -77.125,
        89.0, -89.9, 89.99999, -89.99999999, 89.999999999999, 90 - 2**-46, -90 + 2**-46,
        1e-13, -1e-9, 1e-300]
LATS_MORE = [x for k in range(0, 15) for x in (90 - 10.0**-k, -90 + 3 * 10.0**-k)] \
    + [10.0 * k + 0.5 for k in range(-8, 9)] + [10.0**-k for k in range(1, 16, 2)]
LONS = [0.0, -0.0, 180.0, -180.0, 90.0, -90.0, 45.0, -135.0, 33.3, -123.456, 179.9999999,
        -1e-9, 270.0, 359.5, 360.0, 540.0, -361.25, 7265.5]
LONS_SHORT = [0.0, 180.0, -180.0, 90.0, -123.456, 33.3, 359.5]
RADS = [6371.2, 6371.2000001, 6481.2, 3480.0, 1.0, 20000.0, 6371200.0]
HGTS = [0.0, -100.0, 0.001, 110.0, 450.0, 36000.0, 1e6]


def lats(tier):
    return LATS if tier == "quick" else LATS + LATS_MORE


def grid(lat, lon, rad):
    """ all combinations, shape (N, 3) """
    out = np.array(np.meshgrid(lat, lon, rad, indexing="ij"), dtype=float)
    return np.ascontiguousarray(np.moveaxis(out.reshape(3, -1), 0, -1))


def axis_points(radii):
    """ Cartesian points on axes, planes and diagonals, with signed zeros """
    out = []
    for r in radii:
        for x in (0.0, -0.0, r, -r, 1e-9 * r):
            for y in (0.0, -0.0, r, -r, -1e-7 * r):
                for z in (0.0, -0.0, r, -r, 0.3 * r):
                    if x or y or z:
                        out.append((x, y, z))
    return np.array(out)


def points(kind, tier, geodetic=False):
    """ evaluation points in the given coordinate system; with geodetic set
    points in the Earth's core, where geodetic coordinates are ambiguous,
    are left out """
    x = _points(kind, tier)
    if geodetic and kind != GEODETIC:
        x = x[np.linalg.norm(x, axis=1) > 1000 if kind == CARTESIAN else x[:, 2] > 1000]
    return x


def _points(kind, tier):
    if kind == CARTESIAN:
        sph = grid(LATS[:8] + [-89.9, 89.99999], LONS_SHORT, [6371.2, 6481.2, 3480.0, 20000.0])
        return np.concatenate([
            axis_points([6371.2, 7000.0]),
            np.asarray(ref.to_cart(sph, SPHERICAL), dtype=float),
        ])
    vert = HGTS[:5] if kind == GEODETIC else RADS
    return grid(lats(tier), LONS if tier == "thorough" else LONS_SHORT, vert)


def nm_list(degree):
    return [(n, m) for n in range(degree + 1) for m in range(n + 1)]
