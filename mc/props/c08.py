""" C08 - degree limits select exactly the requested degrees """
import itertools
import numpy as np
import eoxmagmod as em
from eoxmagmod.magnetic_model.coefficients_mio import SparseSHCoefficientsMIO
from ..core import group
from .. import catalog, ref
from ..ref import SPHERICAL
from .c05 import reference, year_of_mjd

NAN, INF = float("nan"), float("inf")
TOP = 6
NODES = [0.0, 10.0, 30.0]
YEARS = [1999.0, 2000.0, 2001.0]
TIMES = [0.0, 7.0, 17.5, 30.0]

# degree/order patterns of the sparse sets
PATTERNS = {
    "full4": [(n, m) for n in range(1, 5) for m in range(-n, n + 1)],
    "monopole": [(n, m) for n in range(0, 4) for m in range(-n, n + 1)],
    "gap": [(1, 0), (1, 1), (4, -2), (4, 4), (6, 0), (6, -6)],
    "high": [(5, 1), (6, -3), (5, 0)],
    "single": [(3, -2)],
    "only zero": [(0, 0)],
    "unsorted": [(4, 0), (1, -1), (3, 2), (2, 2), (1, 1), (2, 0)],
}


def terms(pattern):
    return np.array(PATTERNS[pattern])


class Leaf:
    """ sparse set with its model """
    def __init__(self, kind, pattern, salt, **kw):
        self.kind, self.pattern, self.kw = kind, pattern, kw
        nm = terms(pattern)
        size = {"K": 1, "L": 3, "S": 3, "D": 3}[kind]
        self.values = ref.generic(len(nm), size, salt=400 + salt) * 30

    def build(self):
        nm = terms(self.pattern)
        if self.kind == "K":
            return catalog.Constant(nm, self.values[:, 0], **self.kw)
        if self.kind == "D":
            return catalog.LinearDY(nm, self.values, YEARS, **self.kw)
        return catalog.Linear(nm, self.values, NODES, spline_order=1 if self.kind == "S" else 2, **self.kw)

    def coef(self, t, low, high):
        if self.kind == "K":
            val = self.values[:, 0]
        elif self.kind == "D":
            val = reference(year_of_mjd(t), [ref.LD(y) for y in YEARS], self.values, "C1", True)[0]
        else:
            val = reference(t, NODES, self.values, "C0" if self.kind == "S" else "C1", True)[0]
        out = np.zeros((ref.nterms(TOP), 2))
        for (n, m), v in zip(PATTERNS[self.pattern], np.asarray(val, float)):
            if low <= n <= high:
                out[n * (n + 1) // 2 + abs(m), int(m < 0)] = v
        return out

    def degrees(self):
        n = terms(self.pattern)[:, 0]
        return n.min(), n.max()

    def valid(self, t):
        return self.kw.get("validity_start", -INF) <= t <= self.kw.get("validity_end", INF)


class Sum:
    def __init__(self, *items):
        self.items = items

    def build(self):
        return catalog.Combined(*[i.build() for i in self.items])

    def coef(self, t, low, high):
        return sum(i.coef(t, low, high) for i in self.items)

    def degrees(self):
        d = [i.degrees() for i in self.items]
        return min(a for a, _ in d), max(b for _, b in d)

    def valid(self, t):
        return all(i.valid(t) for i in self.items)


class First(Sum):
    def build(self):
        return catalog.Composed(*[i.build() for i in self.items])

    def coef(self, t, low, high):
        return next(i for i in self.items if i.valid(t)).coef(t, low, high)

    def valid(self, t):
        return any(i.valid(t) for i in self.items)


def sets():
    out = {}
    for kind in "KLSD":
        for k, pattern in enumerate(PATTERNS):
            out[f"{kind} {pattern}"] = Leaf(kind, pattern, k)
    out["sum"] = Sum(Leaf("L", "full4", 20), Leaf("K", "high", 21))
    out["sum of shared"] = Sum(Leaf("L", "full4", 22), Leaf("S", "unsorted", 23), Leaf("L", "gap", 24))
    out["mixed sum"] = Sum(Leaf("L", "single", 25), Leaf("D", "gap", 26), Leaf("K", "monopole", 27))
    lim = lambda a, b: {"validity_start": a, "validity_end": b}
    out["sequence"] = First(Leaf("L", "high", 28, **lim(0.0, 10.0)), Leaf("K", "full4", 29, **lim(10.0, 40.0)))
    out["sequence of sums"] = First(
        Sum(Leaf("L", "single", 30, **lim(0.0, 10.0)), Leaf("K", "gap", 31)),
        Sum(Leaf("S", "monopole", 32, **lim(5.0, 40.0)), Leaf("D", "high", 33)))
    out["sum of sequences"] = Sum(
        First(Leaf("L", "high", 34, **lim(0.0, 12.0)), Leaf("K", "only zero", 35, **lim(12.0, 40.0))),
        First(Leaf("K", "unsorted", 36, **lim(0.0, 18.0)), Leaf("L", "gap", 37, **lim(18.0, 40.0))), Leaf("K", "single", 38))
    return out


SETS = sets()
LOCS = np.array([[33.0, -71.0, 6800.0], [-64.0, 140.0, 6371.2], [90.0, 0.0, 7000.0], [5.0, 5.0, 6900.0]])
LIMITS = [None, -5, -1] + list(range(0, TOP + 3))
MAPS = {}


def field(coef, loc):
    key = tuple(loc)
    if key not in MAPS:
        out = np.zeros((3, ref.nterms(TOP), 2))
        for i in range(ref.nterms(TOP)):
            for j in range(2):
                unit = np.zeros((ref.nterms(TOP), 2))
                unit[i, j] = 1
                out[:, i, j] = -ref.sh_eval(*loc, unit)[1].astype(float)
        MAPS[key] = out
    return np.tensordot(MAPS[key], coef, ([1, 2], [0, 1]))


def bounds_of(low, high):
    return (-1 if low is None or low < 0 else low), (TOP if high is None or high < 0 else high)


def kwargs(low, high):
    return {k: v for k, v in (("min_degree", low), ("max_degree", high)) if v is not None}


def limit_cases(tier):
    for name in SETS:
        for low in LIMITS:
            for high in LIMITS:
                yield [name, low, high]


@group("C08", "coefficient sets", limit_cases, chunk=32)
def coefficient_sets(ctx, case):
    name, low, high = case
    model = SETS[name]
    coefs = model.build()
    dmin, dmax = model.degrees()
    ctx.require((coefs.min_degree, coefs.degree) == (dmin, dmax), f"degrees {coefs.min_degree}..{coefs.degree} instead of {dmin}..{dmax}")
    obj = catalog.SHModel(coefs)
    ctx.require((obj.min_degree, obj.degree) == (dmin, dmax), "degrees of the model")
    lo, hi = bounds_of(low, high)
    opts = kwargs(low, high)
    many, _ = coefs(np.array(TIMES), **opts)
    expected = []
    for k, t in enumerate(TIMES):
        full = model.coef(t, lo, hi)
        expected.append(field(full, LOCS[k]))
        one, degree = coefs(t, **opts)
        if not ctx.close(catalog.padded(one, ref.nterms(TOP)), full, rtol=0, atol=1e-7 if "D" in name or "mixed" in name or "sums" in name else 1e-12,
                         what=f"{name} coefficients for degrees {low}..{high} at {t}"):
            return
        ctx.require(one.shape[-2] == ref.nterms(degree) and degree <= dmax, f"reported degree {degree}")
        used = np.flatnonzero(np.any(full != 0, axis=1))
        if used.size:
            ctx.require(ref.nterms(degree) > used.max(), f"degree {degree} is less than the terms")
        if not ctx.close(catalog.padded(many[k], ref.nterms(TOP)), catalog.padded(one, ref.nterms(TOP)), rtol=0, atol=0, what="array of times"):
            return
    got = obj.eval(np.array(TIMES), LOCS, **opts)
    ctx.count(3 * len(TIMES))
    ctx.close(got, np.array(expected), rtol=0, atol=1e-6, what=f"{name} field of degrees {low}..{high}")
    single = np.array([obj.eval(t, x, **opts) for t, x in zip(TIMES, LOCS)])
    ctx.same(single, got, f"{name} single evaluations of degrees {low}..{high}")
    if not any(np.any(model.coef(t, lo, hi)) for t in TIMES):
        ctx.require(not np.any(got), "field of an empty range is not zero")


# --- all kinds of models: additivity over every partition of the degrees -----------------

def wide(salt, **kw):
    return catalog.linear(degree=4, salt=salt, **kw)


def make_models():
    models = {}
    models["constant"] = catalog.SHModel(catalog.constant(degree=4, salt=410))
    models["external"] = catalog.SHModel(catalog.constant(degree=4, salt=411, is_internal=False))
    models["linear"] = catalog.SHModel(wide(412))
    models["decimal year"] = catalog.SHModel(wide(413, times=(2000.0, 2000.01, 2000.05), cls=catalog.LinearDY))
    models["combined"] = catalog.SHModel(catalog.Combined(wide(414), catalog.constant(degree=3, salt=415)))
    models["mixed"] = catalog.SHModel(catalog.Combined(wide(416), wide(417, times=(2000.0, 2000.2), cls=catalog.LinearDY)))
    models["composed"] = catalog.SHModel(catalog.Composed(wide(418, times=(0.0, 8.0)), catalog.constant(degree=2, salt=419)))
    models["dipole"] = catalog.DipoleModel(wide(420), catalog.POLE)
    models["dipole mixed"] = catalog.DipoleModel(catalog.Combined(wide(421), wide(422, times=(2000.0, 2000.2), cls=catalog.LinearDY)), catalog.POLE)
    models["mio"] = catalog.MIOModel(catalog.mio(degree=4, salt=423), catalog.POLE)
    models["mio external"] = catalog.MIOModel(catalog.mio(degree=4, salt=424, internal=False), catalog.POLE)
    models["mio primary"] = catalog.MIOPrimary(models["mio external"], models["mio"])
    total = em.ComposedGeomagneticModel(models["linear"], models["external"], models["dipole"])
    total.push(models["mixed"], scale=-2.0)
    models["sum"] = total
    return models


OBJECTS = make_models()
POINTS = np.array([[33.0, -71.0, 6800.0], [-64.0, 140.0, 6371.2], [90.0, 0.0, 6481.2], [5.0, 5.0, 6481.3], [88.0, -33.0, 6600.0]])
WHEN = np.array([1.0, 5.0, 8.0, 9.5, 12.0])


def partition_cases(tier):
    for name in OBJECTS:
        for cuts in range(1, 4 if tier == "quick" else 5):
            for inner in itertools.combinations(range(1, 5), cuts):
                for ends in itertools.product((None, -1), (None, 4, 9, -3)):
                    yield [name, list(inner), *ends]


@group("C08", "partitions of the degrees", partition_cases, chunk=16)
def partitions(ctx, case):
    name, cuts, first, last = case
    model = OBJECTS[name]
    extra = {"f107": 90.0, "lat_sol": 12.0, "lon_sol": 55.0} if name in catalog.MIO_NAMES else {}
    full = model.eval(WHEN, POINTS, **extra)
    lows = [first] + [c + 1 for c in cuts]
    highs = list(cuts) + [last]
    total = np.zeros_like(full)
    for low, high in zip(lows, highs):
        total += model.eval(WHEN, POINTS, **kwargs(low, high), **extra)
        ctx.count(1)
    ctx.close(total, full, rtol=0, atol=1e-12 * np.abs(full).max() * 50, what=f"{name} sum over the partition {lows} {highs}")
    for low, high in ((3, 2), (5, None), (9, 12), (1, 0), (None, 0), (4, 1)):
        empty = model.eval(WHEN, POINTS, **kwargs(low, high), **extra)
        ctx.require(not np.any(empty), f"{name}: field of the empty range {low}..{high} is not zero")
        one = model.eval(5.0, POINTS[1], **kwargs(low, high), **extra)
        ctx.require(not np.any(one), f"{name}: single field of the empty range {low}..{high} is not zero")


# --- the ionospheric coefficients ------------------------------------------------------------

@group("C08", "ionospheric sets", lambda tier: [[p, low, high] for p in PATTERNS for low in LIMITS for high in LIMITS], chunk=32)
def mio(ctx, case):
    pattern, low, high = case
    nm = terms(pattern)
    values = ref.generic(len(nm), 3, 2, 2, salt=430) * 9
    coefs = SparseSHCoefficientsMIO(nm, values, (0, 1, -1, 1))
    lo, hi = bounds_of(low, high)
    opts = kwargs(low, high)
    model = catalog.MIOModel(coefs, catalog.POLE)
    keep = (nm[:, 0] >= lo) & (nm[:, 0] <= hi)
    n = nm[:, 0]
    ctx.require((coefs.min_degree, coefs.degree, model.min_degree, model.degree) == (n.min(), n.max(), n.min(), n.max()), "degrees")
    got = model.eval(WHEN, POINTS, **opts)
    if keep.any():
        other = catalog.MIOModel(SparseSHCoefficientsMIO(nm[keep], values[keep], (0, 1, -1, 1)), catalog.POLE)
        exp = other.eval(WHEN, POINTS)
    else:
        exp = np.zeros((len(WHEN), 3))
    ctx.close(got, exp, rtol=0, atol=1e-11 * max(1.0, np.abs(exp).max()), what=f"{pattern} field of degrees {low}..{high}")
    times, mut = np.array([3.0, 200.0]), np.array([4.0, 19.0])
    full = coefs(times, mut)[0]
    part, degree = coefs(times, mut, **opts)
    exp = np.zeros_like(full)
    for (a, b), k in zip(nm, keep):
        if k:
            exp[:, a * (a + 1) // 2 + abs(b), int(b < 0)] = full[:, a * (a + 1) // 2 + abs(b), int(b < 0)]
    size = full.shape[-2]
    ctx.require(part.shape[-2] == ref.nterms(degree), "reported degree")
    ctx.same(catalog.padded(part, size), exp, f"{pattern} coefficients of degrees {low}..{high}")
    ctx.count(3)


# --- members of a composed model and their own limits -----------------------------------------

@group("C08", "limits of composed models", lambda tier: [[low, high, l2, h2] for low in LIMITS[::2] for high in LIMITS[::2] for l2 in (None, -1, 2, 5) for h2 in (None, -1, 1, 3)], chunk=16)
def composed(ctx, case):
    """ limits given with a component replace those of the call """
    low, high, l2, h2 = case
    total = em.ComposedGeomagneticModel(OBJECTS["linear"], OBJECTS["mio primary"])
    total.push(OBJECTS["constant"], **kwargs(l2, h2))
    merged = kwargs(low, high)
    merged.update(kwargs(l2, h2))
    extra = {"f107": 90.0, "lat_sol": 12.0, "lon_sol": 55.0}
    got = total.eval(WHEN, POINTS, **kwargs(low, high), **extra)
    exp = OBJECTS["linear"].eval(WHEN, POINTS, **kwargs(low, high)) + OBJECTS["mio primary"].eval(WHEN, POINTS, **kwargs(low, high), **extra)
    exp = exp + OBJECTS["constant"].eval(WHEN, POINTS, **merged)
    ctx.close(got, exp, rtol=0, atol=1e-9, what=f"call {low}..{high} component {l2}..{h2}")
    ctx.count(1)


# --- numeric forms of the limits ----------------------------------------------------------------

@group("C08", "forms of the limits", lambda tier: [[n, low, high] for n in OBJECTS for low in (0, 1, 2, 3, 5) for high in (0, 1, 3, 4, 6)], chunk=16)
def forms(ctx, case):
    name, low, high = case
    model = OBJECTS[name]
    extra = {"f107": 90.0} if name in catalog.MIO_NAMES else {}
    base = model.eval(WHEN, POINTS, min_degree=low, max_degree=high, **extra)
    for conv in (np.int32, np.int64, np.int8, np.array):
        got = model.eval(WHEN, POINTS, min_degree=conv(low), max_degree=conv(high), **extra)
        ctx.count(1)
        ctx.same(got, base, f"{name} limits given as {conv.__name__}")


# --- ionospheric models of two parts with different degrees -------------------------------------------

PARTS = [(1, 1), (1, 2), (2, 2), (1, 3), (3, 3), (2, 4)]


@group("C08", "parts of ionospheric models", lambda tier: [list(p) for p in itertools.product(range(len(PARTS)), repeat=2)], chunk=2)
def ionosphere(ctx, case):
    """ limits applied to each of the parts, the degrees of the model are those of both """
    from .c13 import mio_exact
    extent = (0, 1, -1, 1)
    made = []
    for k, (low, high) in enumerate(PARTS[i] for i in case):
        nm = np.array([(n, m) for n in range(low, high + 1) for m in range(-n, n + 1)])
        made.append((nm, ref.generic(len(nm), 3, 2, 2, salt=480 + k) * 10, bool(k)))
    model = catalog.MIOPrimary(*(catalog.MIOModel(catalog.MIO(nm, v, extent, is_internal=i), catalog.POLE) for nm, v, i in made))
    ctx.require((int(model.degree), int(model.min_degree)) == (max(PARTS[i][1] for i in case), min(PARTS[i][0] for i in case)),
                f"degrees {model.min_degree}..{model.degree} of parts of {[PARTS[i] for i in case]}")
    rows = np.array([(10.0, 20.0, 6371.2), (-55.0, 200.0, 7000.0)])
    for low, high in itertools.product((None, 0, 1, 2, 3, 5), (None, 0, 1, 2, 3, 4, 9)):
        options = {k: v for k, v in (("min_degree", low), ("max_degree", high)) if v is not None}
        field = model.eval(4.25, rows, lat_sol=10.0, lon_sol=30.0, **options)
        ctx.count(1)
        ctx.transition(1)
        for k, (nm, values, internal) in enumerate(made):
            keep = [r for r, (n, _) in enumerate(nm) if (low or 0) <= n <= (99 if high is None else high)]
            if keep:
                exact = mio_exact(4.25, rows[k], nm[keep], values[keep], extent, catalog.POLE, internal, SPHERICAL, SPHERICAL, sun=(10.0, 30.0))
            else:
                exact = np.zeros(3)
            if not ctx.close(field[k], exact, rtol=1e-9, atol=1e-9 * (1 + np.abs(exact).max()), what=f"part {k} limited to {low}..{high}"):
                return
    ctx.state(tuple(case))
