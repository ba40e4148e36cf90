""" The public evaluation and conversion functions, described uniformly.

Each Entry names a callable of element-wise arguments.  `elements` is a list
of argument tuples (one value per element-wise argument); a value is a scalar
(core dimension 0) or a short vector/matrix (core dimension 1, 2).  `bcast`
says how arguments of different leading shapes combine:
  "prefix"  leading dimensions must match, missing trailing ones broadcast
  "scalar"  full shape or a single value
  "same"    all arguments of the same shape
"""
import itertools
import numpy as np
import eoxmagmod as em
from eoxmagmod import _pymm
from eoxmagmod.magnetic_model.coefficients import (
    SparseSHCoefficientsConstant as Constant,
    SparseSHCoefficientsTimeDependent as Linear,
    SparseSHCoefficientsTimeDependentDecimalYear as LinearDY,
    ComposedSHCoefficients as Composed,
    CombinedSHCoefficients as Combined,
)
from eoxmagmod.magnetic_model.coefficients_mio import SparseSHCoefficientsMIO as MIO
from eoxmagmod.magnetic_model.model import (
    SphericalHarmomicGeomagneticModel as SHModel,
    DipoleSphericalHarmomicGeomagneticModel as DipoleModel,
)
from eoxmagmod.magnetic_model.model_mio import (
    DipoleMIOGeomagneticModel as MIOModel, MIOPrimaryGeomagneticModel as MIOPrimary,
)
from eoxmagmod.magnetic_time import mjd2000_to_magnetic_universal_time as mut
from . import ref
from .ref import GEODETIC, SPHERICAL, CARTESIAN

NAN, INF = float("nan"), float("inf")


class Entry:
    def __init__(self, name, args, call, elements, bcast="prefix", max_ndim=4,
                 rtol=1e-12, sizes=None, depth=3, group="c", ints=()):
        self.name = name
        self.args = args            # [(name, core_ndim)]
        self.call = call            # call(*arrays) -> array or tuple
        self.elements = elements    # list of tuples
        self.bcast = bcast
        self.max_ndim = max_ndim
        self.rtol = rtol
        self.depth = depth
        self.group = group          # c, py, model, qd

    def __call__(self, *args):
        res = self.call(*args)
        return tuple(np.asarray(r) for r in res) if isinstance(res, tuple) else (np.asarray(res),)

    def stack(self, elems):
        """ argument arrays of a 1-d sequence of elements """
        return [np.array([e[k] for e in elems], dtype=float).reshape(
            (len(elems),) + np.shape(self.elements[0][k])) for k in range(len(self.args))]


# --- coefficients and models ---------------------------------------------------

def nm_full(degree, start=1):
    out = []
    for n in range(start, degree + 1):
        out.append((n, 0))
        for m in range(1, n + 1):
            out += [(n, m), (n, -m)]
    return np.array(out)


def values(count, salt, scale=100.0):
    return ref.generic(count, salt=salt) * scale


def constant(degree=2, salt=1, start=1, **kw):
    nm = nm_full(degree, start)
    return Constant(nm, values(len(nm), salt), **kw)


def linear(degree=2, salt=2, times=(0.0, 10.0, 30.0), start=1, cls=Linear, **kw):
    nm = nm_full(degree, start)
    cv = ref.generic(len(nm), len(times), salt=salt) * 100
    return cls(nm, cv, np.array(times), **kw)


def mio(degree=2, salt=5, extent=(0, 1, -1, 1), internal=True, **kw):
    """ extent: (pmin, pmax, smin, smax) """
    nm = nm_full(degree)
    pmin, pmax, smin, smax = extent
    cv = ref.generic(len(nm), smax - smin + 1, pmax - pmin + 1, 2, salt=salt) * 10
    return MIO(nm, cv, extent, is_internal=internal, **kw)


POLE = (80.3, -72.6)


def make_models():
    models = {}
    models["constant"] = SHModel(constant())
    models["constant external"] = SHModel(constant(salt=3, is_internal=False))
    models["linear"] = SHModel(linear())
    models["order 1"] = SHModel(linear(salt=7, spline_order=1))
    models["decimal year"] = SHModel(linear(salt=4, times=(2000.0, 2000.01, 2000.05), cls=LinearDY))
    models["composed"] = SHModel(Composed(
        linear(salt=8, times=(0.0, 10.0)), constant(salt=9, validity_start=5.0, validity_end=20.0),
        linear(salt=11, times=(20.0, 25.0, 30.0), degree=3)))
    models["combined"] = SHModel(Combined(linear(salt=12), constant(salt=13, degree=3), linear(salt=14, times=(-5.0, 15.0))))
    models["mixed scales"] = SHModel(Combined(
        linear(salt=15), linear(salt=16, times=(2000.0, 2000.02), cls=LinearDY)))
    models["nested"] = SHModel(Composed(
        Combined(linear(salt=17, times=(0.0, 10.0)), constant(salt=18)),
        Combined(linear(salt=19, times=(10.0, 30.0)), linear(salt=20, times=(2000.0, 2000.06), cls=LinearDY))))
    models["dipole"] = DipoleModel(linear(salt=21), POLE)
    models["dipole combined"] = DipoleModel(Combined(linear(salt=22), constant(salt=23)), POLE)
    models["mio"] = MIOModel(mio(), POLE)
    models["mio external"] = MIOModel(mio(salt=6, internal=False, validity_start=0.0, validity_end=30.0), POLE, wolf_ratio=0.01)
    models["mio primary"] = MIOPrimary(
        MIOModel(mio(salt=24, internal=False, validity_start=0.0, validity_end=30.0), POLE),
        MIOModel(mio(salt=25, validity_start=0.0, validity_end=30.0), POLE))
    comp = em.ComposedGeomagneticModel()
    comp.push(models["linear"])
    comp.push(models["constant external"], scale=-0.5)
    comp.push(models["dipole"], scale=2.0, max_degree=1)
    models["sum"] = comp
    models["empty sum"] = em.ComposedGeomagneticModel()
    return models


MODELS = make_models()
MIO_NAMES = ("mio", "mio external", "mio primary")

# --- element alphabets -----------------------------------------------------------

LOC_SPH = [(a, b, c) for a in (10.0, -55.0) for b in (20.0, 200.0) for c in (6371.2, 7000.0)] + [
    (90.0, 20.0, 6371.2), (-90.0, 200.0, 7000.0), (0.0, 0.0, 6371.2), (10.0, -160.0, 6371.2),
]
LOC_BAD = [(NAN, 20.0, 6371.2), (10.0, NAN, 7000.0), (-55.0, 20.0, NAN), (NAN, NAN, NAN),
           (10.0, 20.0, INF), (INF, 200.0, 6371.2), (10.0, 20.0, 0.0)]


def locations(kind, bad=True, few=False):
    sph = LOC_SPH[:5:2] + LOC_SPH[8:9] if few else LOC_SPH
    if kind == SPHERICAL:
        good = list(sph)
    else:
        good = [tuple(float(v) for v in ref.convert(np.array(p), SPHERICAL, kind)) for p in sph]
        if kind == GEODETIC:
            good = [(p[0], q[1], p[2]) for p, q in zip(good, sph)]
    if few:
        return good + ([LOC_BAD[0], LOC_BAD[2]] if bad else [])
    return good + (LOC_BAD if bad else [])


TIMES = [0.0, 4.0, 10.0, 17.0, 30.0, -3.0, 41.0, NAN]
MIX_TIMES = TIMES[:6] + [NAN, INF, -INF]


def around(*times):
    """ the times and their neighbouring representable values """
    return [float(v) for t in times for v in (np.nextafter(t, -INF), t, np.nextafter(t, INF))]


def entries(tier="quick"):
    out = []
    add = lambda *a, **k: out.append(Entry(*a, **k))
    names = {GEODETIC: "geod", SPHERICAL: "sph", CARTESIAN: "cart"}

    # spherical harmonics
    coef3 = ref.generic_coef(3, salt=31, n0=True)
    coef20 = ref.generic_coef(20, salt=32)
    for kin in (0, 1, 2):
        for kout in (0, 1, 2):
            for mode in (1, 2, 3):
                for internal in ((True, False) if kin == kout else (True,)):
                    add(f"sheval {names[kin]}->{names[kout]} mode {mode} {'int' if internal else 'ext'}",
                        [("arr_x", 1)],
                        lambda x, kin=kin, kout=kout, mode=mode, internal=internal: em.sheval(
                            x, coef3, kin, kout, mode=mode, is_internal=internal),
                        [(p,) for p in locations(kin)])
    add("sheval degree 20", [("arr_x", 1)],
        lambda x: em.sheval(x, coef20, SPHERICAL, GEODETIC, mode=3), [(p,) for p in locations(SPHERICAL)])
    sets = [ref.generic_coef(2, salt=40 + k, n0=True) for k in range(2)]
    sets.append(np.where(np.arange(6)[:, None] == 2, NAN, sets[0]))
    add("sheval coefficient arrays", [("arr_x", 1), ("coef", 2)],
        lambda x, c: em.sheval(x, c, SPHERICAL, CARTESIAN, mode=3),
        [(p, c) for p in locations(SPHERICAL, few=True) for c in sets])
    for kin in (0, 1, 2):
        add(f"sheval_dipole {names[kin]}", [("arr_in", 1)],
            lambda x, kin=kin: em.sheval_dipole(x, coef3, 80.0, -70.0, kin, (kin + 1) % 3, mode=3, scale_gradient=-1.0),
            [(p,) for p in locations(kin)], group="py")
        for kout in (kin, (kin + 2) % 3):
            add(f"sheval_dipole {names[kin]}->{names[kout]}", [("arr_in", 1)],
                lambda x, kin=kin, kout=kout: em.sheval_dipole(x, coef3, 80.0, -70.0, kin, kout, mode=2),
                [(p,) for p in locations(kin)], group="py")

    # time dependent
    nm = nm_full(2).astype("i4")
    tsets = [
        (np.array([0.0, 10.0, 30.0]), ref.generic(len(nm), 3, salt=41) * 9, nm, 2),
        (np.array([5.0]), ref.generic(len(nm), 1, salt=42) * 9, nm, 1),
        (np.array([-3.0, 4.0, 17.0, 20.0]), ref.generic(3, 4, salt=43) * 9, nm[:3], 1),
    ]
    for mode in (1, 2, 3):
        for kin, kout in ((1, 1), (0, 2), (2, 0)):
            add(f"shevaltemp {names[kin]}->{names[kout]} mode {mode}", [("arr_t", 0), ("arr_x", 1)],
                lambda t, x, kin=kin, kout=kout, mode=mode: _pymm.shevaltemp(
                    t, x, tsets, kin, kout, mode=mode),
                [(t, p) for t in MIX_TIMES for p in locations(kin, few=True)[:3]] +
                [(4.0, p) for p in locations(kin, few=True)[3:]])
            if kin == 1:
                add(f"shevaltemp mode {mode} around nodes", [("arr_t", 0), ("arr_x", 1)],
                    lambda t, x, kin=kin, kout=kout, mode=mode: _pymm.shevaltemp(
                        t, x, tsets[2:], kin, kout, mode=mode),
                    [(t, locations(1)[0]) for t in around(-3.0, 4.0, 17.0, 20.0)])
    ab = ref.generic(len(nm), 3, 2, 2, salt=44) * 9
    for mode in (1, 2, 3):
        for kin, kout in ((1, 1), (0, 2), (2, 0)):
            add(f"sheval2dfs {names[kin]}->{names[kout]} mode {mode}",
                [("arr_t1", 0), ("arr_t2", 0), ("arr_x", 1)],
                lambda t1, t2, x, kin=kin, kout=kout, mode=mode: _pymm.sheval2dfs(
                    t1, t2, x, (ab, nm, -1, 0, 2*np.pi, 0.25), kin, kout, mode=mode),
                [(a, b, p) for a in (0.1, 0.6, NAN) for b in (3.0, 20.0, NAN) for p in locations(kin, few=True)[:2]] +
                [(0.1, 20.0, p) for p in locations(kin, few=True)[2:]] + [(INF, 3.0, locations(kin)[0])])
    nodes, series = np.array([0.0, 10.0, 30.0]), ref.generic(2, 2, 3, salt=45) * 9
    for kind in ("C0", "C1", "C1D1"):
        for extra in (True, False):
            add(f"interp {kind} extrapolate={extra}", [("time", 0)],
                lambda t, kind=kind, extra=extra: _pymm.interp(
                    t, nodes, series, kind=getattr(_pymm, "INTERP_" + kind), extrapolate=extra),
                [(t,) for t in MIX_TIMES + [10.0 - 1e-9, 29.0]])
    ser2 = ref.generic(2, 3, 2, 2, salt=46) * 9
    add("fourier2d", [("time1", 0), ("time2", 0)],
        lambda a, b: _pymm.fourier2d(a, b, ser2, -1, 0, 1.0, 2.0),
        [(a, b) for a in (0.0, 0.3, -2.0, NAN, INF) for b in (0.0, 1.3, 9.0, NAN)], bcast="same")
    for side in ("LEFT", "RIGHT"):
        add(f"bisect {side}", [("x", 0)],
            lambda x, side=side: _pymm.bisect(nodes, x, side=getattr(_pymm, "BISECT_SIDE_" + side)),
            [(t,) for t in MIX_TIMES])

    # coordinates and vectors
    for kin in (0, 1, 2):
        for kout in (0, 1, 2):
            add(f"convert {names[kin]}->{names[kout]}", [("arr_in", 1)],
                lambda x, kin=kin, kout=kout: em.convert(x, kin, kout), [(p,) for p in locations(kin)])
    vecs = [(1.0, 2.0, -3.0), (0.0, 0.0, 0.0), (NAN, 1.0, 0.0), (-4.0, 0.5, 1e5)]
    angs = [(10.0, 20.0), (10.0, 200.0), (-90.0, 20.0), (NAN, 20.0), (10.0, NAN), (INF, 0.0)]
    for func in (em.vrot_sph2cart, em.vrot_cart2sph):
        add(func.__name__, [("arr_in", 1), ("arr_lat", 0), ("arr_lon", 0)], func,
            [(v, a, b) for v in vecs[:3] for a, b in angs], bcast="scalar")
    add("vrot_sph2geod", [("arr_in", 1), ("arr_dlat", 0)], em.vrot_sph2geod,
        [(v, a) for v in vecs for a in (0.0, 0.2, -90.0, NAN, INF)], bcast="scalar")
    for kin in (0, 1, 2):
        for kout in (0, 1, 2):
            if kin == kout:
                add(f"vrotate {kin}->{kout}", [("arr", 1)],
                    lambda v, kin=kin: em.vrotate(v, None, None, kin, kin), [(v,) for v in vecs])
                continue
            pin, pout = locations(kin), locations(kout)
            add(f"vrotate {kin}->{kout}", [("arr", 1), ("coord_in", 1), ("coord_out", 1)],
                lambda v, a, b, kin=kin, kout=kout: em.vrotate(v, a, b, kin, kout),
                [(vecs[k % 4], pin[k], pout[k]) for k in range(len(pin))], bcast="same", group="py")
    add("vnorm", [("arr", 1)], em.vnorm, [(v,) for v in vecs], group="py")
    add("vincdecnorm", [("arr", 1)], em.vincdecnorm, [(v,) for v in vecs + [(0.0, 0.0, 1.0), (0.0, 0.0, -1.0), (-1.0, 0.0, 0.0)]], group="py")
    for kin in (0, 1, 2):
        add(f"convert_to_dipole {names[kin]}", [("coords", 1)],
            lambda x, kin=kin: em.convert_to_dipole(x, 80.0, -70.0, kin), [(p,) for p in locations(kin)], group="py")
    for kout in (0, 1, 2):
        add(f"vrot_from_dipole {names[kout]}",
            [("vectors", 1), ("lat_dipole", 0), ("lon_dipole", 0), ("lat_out", 0), ("lon_out", 0)],
            lambda v, a, b, c, d, kout=kout: em.vrot_from_dipole(v, 80.0, -70.0, a, b, c, d, kout),
            [(v, a, b, c, d) for v in vecs[:2] for a, b in angs[:4] for c, d in ((5.0, 6.0), (-90.0, NAN))],
            bcast="scalar", group="py")

    # building blocks
    for degree in (0, 3, 19):
        add(f"legendre {degree}", [("latitude", 0)], lambda x, d=degree: em.legendre(x, d),
            [(v,) for v in (0.0, 45.0, 90.0, -90.0, 89.99999999, NAN, INF, -33.0)])
        for fast in (True, False):
            add(f"loncossin {degree} {fast}", [("longitude", 0)], lambda x, d=degree, f=fast: em.loncossin(x, d, f),
                [(v,) for v in (0.0, 45.0, 180.0, -180.0, 400.0, NAN, INF, -33.0)])
        for internal in (True, False):
            add(f"relradpow {degree} {internal}", [("radius", 0)],
                lambda x, d=degree, i=internal: em.relradpow(x, d, is_internal=i),
                [(v,) for v in (6371.2, 7000.0, 1.0, 0.0, NAN, INF)])
    blocks = []
    for k, (a, b, c) in enumerate(LOC_SPH[:9:2] + LOC_BAD[:3]):
        lp, ldp = em.legendre(a, 2)
        blocks.append((c, sets[k % 2], lp, em.relradpow(c, 2), em.loncossin(b, 2), a, ldp))
    add("spharpot", [("radius", 0), ("coef", 2), ("leg_p", 1), ("rrp", 1), ("lcs", 2)],
        em.spharpot, [b[:5] for b in blocks])
    add("sphargrd", [("latitude", 0), ("coef", 2), ("leg_p", 1), ("leg_dp", 1), ("rrp", 1), ("lcs", 2)],
        em.sphargrd, [(b[5], b[1], b[2], b[6], b[3], b[4]) for b in blocks])

    # time and sun
    days = [0.0, 0.5, 366.0, -1.0, -0.25, 8035.75, NAN]
    for func in (em.mjd2000_to_decimal_year, em.mjd2000_to_year_fraction):
        add(func.__name__, [("mjd2000", 0)], func, [(v,) for v in days + [-80000.0, 365.999999]], group="py")
    add("decimal_year_to_mjd2000", [("year", 0)], em.decimal_year_to_mjd2000,
        [(v,) for v in (2000.0, 2000.5, 1999.999, 1582.8, 2100.0, NAN, -4.5)], group="py")
    sun = [(t, a, b, r, d) for t in (0.0, 3000.25, NAN) for a, b in ((10.0, 20.0), (90.0, 20.0), (10.0, NAN))
           for r in (6371.2, 0.0) for d in (0.0, 65.0)]
    add("sunpos", [("time", 0), ("lat", 0), ("lon", 0), ("rad", 0), ("dtt", 0)], em.sunpos, sun, bcast="scalar")
    add("sunpos_original", [("time", 0), ("lat", 0), ("lon", 0), ("rad", 0), ("dtt", 0), ("pres", 0), ("temp", 0)],
        em.sunpos_original, [s + (p, 10.0) for s in sun[::2] for p in (1.0, 0.0)], bcast="scalar", depth=2)
    add("magnetic universal time", [("mjd2000", 0)], lambda t: mut(t, 80.0, -70.0), [(v,) for v in days], group="py")
    add("magnetic universal time of a sub-solar point", [("lat_sol", 0), ("lon_sol", 0)],
        lambda a, b: mut(0.0, 80.0, -70.0, a, b),
        [(a, b) for a in (23.0, -5.0, NAN) for b in (0.0, 179.0, -180.0, NAN)], bcast="same", group="py")

    # quasi-dipole
    qd = [(a, b, c, t) for a, b in ((10.0, 20.0), (-80.0, 200.0)) for c in (6371.2, 6871.2) for t in (2000.0, 2012.4)] + [
        (10.0, 20.0, 6371.2, NAN), (NAN, 20.0, 6371.2, 2000.0), (10.0, 20.0, 6371.2, 1800.0), (90.0, 0.0, 6371.2, 2012.4)]
    add("eval_qdlatlon", [("gclat", 0), ("gclon", 0), ("gcrad", 0), ("time", 0)], em.eval_qdlatlon, qd,
        bcast="same", max_ndim=1, depth=2, rtol=1e-6, group="qd")
    add("eval_qdlatlon_with_base_vectors", [("gclat", 0), ("gclon", 0), ("gcrad", 0), ("time", 0)],
        em.eval_qdlatlon_with_base_vectors, qd, bcast="same", max_ndim=1, depth=2, rtol=1e-6, group="qd")
    add("eval_mlt", [("qdlon", 0), ("time", 0)], em.eval_mlt,
        [(a, t) for a in (0.0, 100.0, -100.0, NAN) for t in (0.0, 100.3, 4000.7, NAN)], bcast="same", max_ndim=1,
        rtol=1e-6, group="qd")
    add("eval_subsol", [("time", 0)], em.eval_subsol, [(v,) for v in (0.0, 100.3, -4000.7, 8035.5, NAN, 1e9)],
        max_ndim=1, rtol=1e-6, group="qd")

    # models
    for name, model in MODELS.items():
        frames = list(itertools.product(range(3), repeat=2))
        for kin, kout in frames:
            loc = locations(kin, few=True)
            if name in MIO_NAMES:
                elems = [(t, p, f, a, b) for t in (4.0, 10.0, -3.0, NAN) for p in loc[:3]
                         for f, a, b in ((70.0, 20.0, 30.0), (NAN, 20.0, 30.0), (150.0, -5.0, -100.0))]
                elems += [(4.0, p, 70.0, 20.0, 30.0) for p in loc[3:]] + [(4.0, loc[0], 70.0, NAN, 30.0)]
                add(f"model {name} {names[kin]}->{names[kout]}",
                    [("time", 0), ("location", 1), ("f107", 0), ("lat_sol", 0), ("lon_sol", 0)],
                    lambda t, x, f, a, b, m=model, kin=kin, kout=kout: m.eval(
                        t, x, kin, kout, f107=f, lat_sol=a, lon_sol=b),
                    elems, group="model", depth=2)
                if kin == kout == 1:
                    add(f"model {name} default sun", [("time", 0), ("location", 1)],
                        lambda t, x, m=model: m.eval(t, x),
                        [(t, p) for t in TIMES for p in loc[:3]], group="model", depth=2)
            else:
                add(f"model {name} {names[kin]}->{names[kout]}", [("time", 0), ("location", 1)],
                    lambda t, x, m=model, kin=kin, kout=kout: m.eval(t, x, kin, kout),
                    [(t, p) for t in TIMES for p in loc[:3]] + [(4.0, p) for p in loc[3:]],
                    group="model", depth=2)
                if kin == kout == 1:
                    start, end = (float(v) for v in model.validity)
                    near = {v for v in (start, end, 0.0, 5.0, 10.0, 20.0, 30.0) if np.isfinite(v)}
                    add(f"model {name} around nodes", [("time", 0), ("location", 1)],
                        lambda t, x, m=model: m.eval(t, x), [(t, loc[0]) for t in around(*sorted(near))],
                        group="model", depth=2)
    # coefficients
    for name, model in MODELS.items():
        coefs = getattr(model, "coefficients", None)
        if coefs is None or name in MIO_NAMES:
            continue
        add(f"coefficients {name}", [("time", 0)], lambda t, c=coefs: padded(c(t)[0]), [(t,) for t in TIMES[:-1]], group="coef")
    return out


def padded(coef, size=10):
    """ coefficients padded to a common degree """
    out = np.zeros(coef.shape[:-2] + (size, 2))
    out[..., :coef.shape[-2], :] = coef
    return out


def single(entry, cache, elem):
    """ the element evaluated alone, as a single value """
    key = id(elem)
    if key not in cache:
        cache[key] = entry(*[np.array(v, dtype=float) for v in elem])
    return cache[key]
