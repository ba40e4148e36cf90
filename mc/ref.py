"""Reference models: straightforward, written from the definitions, in extended
precision, sharing no formula or code with the implementation."""
import numpy as np

LD = np.longdouble
PI = LD("3.14159265358979323846264338327950288")
D2R = PI / 180
RAD0 = LD("6371.2")
WGS_A = LD("6378.137")
WGS_B = LD("6356.7523142")      # as published, a(1 - 1/298.257223563) to 0.1 mm
WGS_F = 1 - WGS_B / WGS_A
WGS_E2 = WGS_F * (2 - WGS_F)

GEODETIC, SPHERICAL, CARTESIAN = 0, 1, 2   # values asserted in checks


def nterms(degree):
    return (degree + 1) * (degree + 2) // 2


def sincosd(deg):
    """ sine/cosine of degrees, exact at multiples of 90 """
    deg = np.asarray(deg, dtype=LD)
    with np.errstate(invalid="ignore"):
        red = np.fmod(deg, LD(360))
        q = np.rint(red / 90)
        x = (red - 90 * q) * D2R
        s, c = np.sin(x), np.cos(x)
        k = np.where(np.isfinite(q), q, 0).astype(int) % 4
    sin = np.choose(k, [s, c, -s, -c])
    cos = np.choose(k, [c, -s, -c, s])
    return sin, cos


def legendre(lat, degree):
    """ Schmidt semi-normalised P, dP/dtheta and m*P/sin(theta) (theta =
    colatitude) for an array of latitudes [deg]; shape (..., nterms) """
    c, s = sincosd(lat)          # cos(theta)=sin(lat), sin(theta)=cos(lat)
    return legendre_cs(c, s, degree)


def legendre_cs(c, s, degree):
    shape = np.shape(c)
    p = np.zeros((nterms(degree),) + shape, LD)
    q = np.zeros_like(p)         # P/sin(theta) for m > 0
    dp = np.zeros_like(p)
    idx = lambda n, m: n * (n + 1) // 2 + m
    p[0] = 1
    for n in range(1, degree + 1):
        for m in range(n + 1):
            if m == n:
                if n == 1:
                    p[idx(1, 1)], q[idx(1, 1)] = s, 1
                else:
                    f = np.sqrt(LD(2 * n - 1) / LD(2 * n))
                    p[idx(n, n)] = f * s * p[idx(n - 1, n - 1)]
                    q[idx(n, n)] = f * s * q[idx(n - 1, n - 1)]
                continue
            f1 = LD(2 * n - 1) / np.sqrt(LD(n * n - m * m))
            f2 = np.sqrt(LD((n - 1) ** 2 - m * m)) / np.sqrt(LD(n * n - m * m)) if n - 1 > m else LD(0)
            p[idx(n, m)] = f1 * c * p[idx(n - 1, m)]
            q[idx(n, m)] = f1 * c * q[idx(n - 1, m)]
            if n - 1 > m:
                p[idx(n, m)] -= f2 * p[idx(n - 2, m)]
                q[idx(n, m)] -= f2 * q[idx(n - 2, m)]
    for n in range(1, degree + 1):
        dp[idx(n, 0)] = -np.sqrt(LD(n * (n + 1)) / 2) * p[idx(n, 1)]
        for m in range(1, n + 1):
            prev = q[idx(n - 1, m)] if m < n else 0
            dp[idx(n, m)] = n * c * q[idx(n, m)] - np.sqrt(LD(n * n - m * m)) * prev
    mq = q
    for n in range(degree + 1):
        for m in range(n + 1):
            mq[idx(n, m)] = m * mq[idx(n, m)]
    return np.moveaxis(p, 0, -1), np.moveaxis(dp, 0, -1), np.moveaxis(mq, 0, -1)


def sh_eval(lat, lon, rad, coef, degree=None, internal=True, rad0=RAD0):
    """ potential and (north, east, up) gradient in spherical coordinates.

    V = a * sum (a/r)^(n+1) [g cos(m lon) + h sin(m lon)] P_n^m   (internal)
    V = a * sum (r/a)^n     [q cos(m lon) + s sin(m lon)] P_n^m   (external)
    """
    coef = np.asarray(coef, dtype=LD)
    full = int(round((np.sqrt(8 * coef.shape[-2] + 1) - 3) / 2))
    degree = full if degree is None or degree < 0 else min(degree, full)
    lat, lon, rad = (np.asarray(v, dtype=LD) for v in np.broadcast_arrays(lat, lon, rad))
    p, dp, mq = legendre(lat, degree)
    n = np.concatenate([[k] * (k + 1) for k in range(degree + 1)])
    m = np.concatenate([np.arange(k + 1) for k in range(degree + 1)])
    coef = coef[..., :nterms(degree), :]
    sm, cm = sincosd(lon[..., None] * m)
    ratio = rad / rad0
    if internal:
        rp = ratio[..., None] ** (-(n + 1).astype(LD))
        dr = -(n + 1) * rp / ratio[..., None]
    else:
        rp = ratio[..., None] ** n.astype(LD)
        dr = n * ratio[..., None] ** (n - 1).astype(LD)
    g, h = coef[..., 0], coef[..., 1]
    amp = g * cm + h * sm
    damp = -g * sm + h * cm
    pot = rad0 * (rp * amp * p).sum(-1)
    g_up = (dr * amp * p).sum(-1)
    over = rp / ratio[..., None]
    g_north = -(over * amp * dp).sum(-1)
    g_east = (over * damp * mq).sum(-1)
    return pot, np.stack([g_north, g_east, g_up], -1)


# --- coordinates -------------------------------------------------------------

def to_cart(x, kind):
    x = np.asarray(x, dtype=LD)
    if kind == CARTESIAN:
        return x
    s, c = sincosd(x[..., 0])
    sl, cl = sincosd(x[..., 1])
    if kind == SPHERICAL:
        r = x[..., 2]
        return np.stack([r * c * cl, r * c * sl, r * s], -1)
    nrad = WGS_A / np.sqrt(1 - WGS_E2 * s * s)
    return np.stack([
        (nrad + x[..., 2]) * c * cl, (nrad + x[..., 2]) * c * sl,
        (nrad * (1 - WGS_E2) + x[..., 2]) * s], -1)


def from_cart(x, kind):
    x = np.asarray(x, dtype=LD)
    if kind == CARTESIAN:
        return x
    rho = np.hypot(x[..., 0], x[..., 1])
    lon = np.arctan2(x[..., 1], x[..., 0]) / D2R
    if kind == SPHERICAL:
        return np.stack([np.arctan2(x[..., 2], rho) / D2R, lon, np.hypot(rho, x[..., 2])], -1)
    lat, hgt = _geodetic(rho, x[..., 2])
    return np.stack([lat / D2R, lon, hgt], -1)


def _geodetic(rho, z):
    """ Newton iteration on the parametric latitude, extended precision """
    beta = np.arctan2(z * WGS_A, rho * WGS_B)
    ae2 = WGS_A * WGS_E2
    for _ in range(30):
        sb, cb = np.sin(beta), np.cos(beta)
        # rho*a*sin(b) - z*b_*cos(b) = a^2 e^2 sin(b) cos(b)
        f = rho * WGS_A * sb - z * WGS_B * cb - WGS_A * ae2 * sb * cb
        d = rho * WGS_A * cb + z * WGS_B * sb - WGS_A * ae2 * (cb * cb - sb * sb)
        beta = beta - f / d
    sb, cb = np.sin(beta), np.cos(beta)
    lat = np.arctan2(sb * WGS_A, cb * WGS_B)
    slat, clat = np.sin(lat), np.cos(lat)
    hgt = (rho - WGS_A * cb) * clat + (z - WGS_B * sb) * slat
    return lat, hgt


def convert(x, kin, kout):
    x = np.asarray(x, dtype=LD)
    if kin == kout:
        return x
    if kin != CARTESIAN and kout != CARTESIAN:
        # the longitude is shared by the geodetic and spherical coordinates
        flat = np.stack([x[..., 0], 0 * x[..., 1], x[..., 2]], -1)
        out = from_cart(to_cart(flat, kin), kout)
        return np.stack([out[..., 0], x[..., 1], out[..., 2]], -1)
    return from_cart(to_cart(x, kin), kout)


def frame(x, kind):
    """ rows: unit vectors of the local vector frame, in Cartesian axes """
    x = np.asarray(x, dtype=LD)
    if kind == CARTESIAN:
        return np.broadcast_to(np.eye(3, dtype=LD), x.shape + (3,))
    s, c = sincosd(x[..., 0])
    sl, cl = sincosd(x[..., 1])
    z = np.zeros_like(s)
    north = np.stack([-s * cl, -s * sl, c], -1)
    east = np.stack([-sl, cl, z], -1)
    up = np.stack([c * cl, c * sl, s], -1)
    return np.stack([north, east, up], -2)


def rotate(vec, x, kin, kout):
    """ rotate vectors given in frame kin to frame kout at Cartesian point x """
    xin, xout = from_cart(x, kin), from_cart(x, kout)
    cart = (np.asarray(vec, LD)[..., :, None] * frame(xin, kin)).sum(-2)
    return (frame(xout, kout) * cart[..., None, :]).sum(-1)


def field(x, coef, kin, kout, degree=None, internal=True):
    """ potential and gradient at points x (system kin) in frame kout """
    x = np.asarray(x, dtype=LD)
    sph = convert(x, kin, SPHERICAL)
    pot, grad = sh_eval(sph[..., 0], sph[..., 1], sph[..., 2], coef, degree, internal)
    cart = (grad[..., :, None] * frame(sph, SPHERICAL)).sum(-2)
    if kout == CARTESIAN:
        return pot, cart
    out = sph if kout == SPHERICAL else convert(x, kin, GEODETIC)
    if kin == kout:
        out = x
    return pot, (frame(out, kout) * cart[..., None, :]).sum(-1)


# --- deterministic generic numbers --------------------------------------------

def generic(*shape, salt=0):
    """ deterministic, generic looking values in (-1, 1), none of them zero """
    size = int(np.prod(shape)) if shape else 1
    k = np.arange(1, size + 1, dtype=float) + 1000.0 * salt
    v = np.modf(k * 0.6180339887498949 + (k * k) * 0.4142135623730951)[0]
    v = 2 * v - 1
    v[np.abs(v) < 0.05] = 0.37
    return v.reshape(shape)


def generic_coef(degree, salt=0, scale=1000.0, n0=False):
    coef = generic(nterms(degree), 2, salt=salt) * scale
    n = np.concatenate([[k] * (k + 1) for k in range(degree + 1)])
    m = np.concatenate([np.arange(k + 1) for k in range(degree + 1)])
    coef /= (n[:, None] + 1.0)
    coef[m == 0, 1] = 0
    if not n0:
        coef[0] = 0
    return coef
