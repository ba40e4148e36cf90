""" C16 - field-line tracing returns an ordered line of model field values """
import itertools
import numpy as np
import eoxmagmod as em
from eoxmagmod.magnetic_model.model import GeomagneticModel
from ..core import group
from .. import catalog, ref
from ..catalog import Constant, Linear, SHModel, DipoleModel, MIOModel, POLE
from ..common import KINDS
from ..ref import LD, SPHERICAL, CARTESIAN, GEODETIC
from .c04 import snapshot
from .c05 import reference as interpolated
from .c11 import dipole_field

INF, NAN = float("inf"), float("nan")
RADIUS = 6371.2
DEFAULT = {"step": 100.0, "max_steps": 500, "min_radius": 0.9977 * RADIUS, "max_radius": 1e6 * RADIUS}


# --- models with fields known independently ---------------------------------------------------

def full(nm, values):
    out = np.zeros((ref.nterms(max(n for n, _ in nm)), 2))
    for (n, m), v in zip(nm, values):
        out[n * (n + 1) // 2 + abs(m), int(m < 0)] = v
    return out


class Known:
    """ model and its field at Cartesian points """
    def __init__(self, model, field, options=None):
        self.model, self.field, self.options = model, field, options or {}


def spherical(coef, internal=True):
    return lambda t, x: -ref.field(x, coef, CARTESIAN, CARTESIAN, internal=internal)[1]


def make_known():
    nm = [tuple(v) for v in catalog.nm_full(4).tolist()]
    strong = ref.generic(len(nm), salt=950) * 3000
    strong[0] = -29000
    out = {}
    add = lambda name, *args: out.__setitem__(name, Known(*args))
    coef = full(nm, strong)
    add("degree 4", SHModel(Constant(np.array(nm), strong)), spherical(coef))
    axial = full([(1, 0), (1, 1), (1, -1)], [-30000.0, 0.0, 0.0])
    add("axial dipole", SHModel(Constant(np.array([(1, 0)]), np.array([-30000.0]))), spherical(axial))
    tilted = full([(1, 0), (1, 1), (1, -1)], [-29500.0, -1500.0, 4800.0])
    add("tilted dipole", SHModel(Constant(np.array([(1, 0), (1, 1), (1, -1)]), np.array([-29500.0, -1500.0, 4800.0]))), spherical(tilted))
    add("uniform", SHModel(Constant(np.array([(1, 0), (1, 1)]), np.array([200.0, -50.0]), is_internal=False)),
        spherical(full([(1, 0), (1, 1)], [200.0, -50.0]), False))
    series = np.stack([strong, strong + 400 * ref.generic(len(nm), salt=951), strong - 900 * ref.generic(len(nm), salt=952)], -1)
    add("linear", SHModel(Linear(np.array(nm), series, [0.0, 10.0, 30.0])),
        lambda t, x: spherical(full(nm, np.asarray(interpolated(LD(t), [LD(v) for v in (0.0, 10.0, 30.0)], series, "C1", True)[0], float)))(t, x))
    moved = DipoleModel(Constant(np.array(nm), strong), POLE)
    add("dipole frame", moved, lambda t, x: -dipole_field(np.asarray(x, LD), coef, *POLE, CARTESIAN, CARTESIAN, True)[1])
    comp = em.ComposedGeomagneticModel()
    comp.push(out["degree 4"].model)
    comp.push(out["uniform"].model, scale=-20.0)
    add("sum", comp, lambda t, x: out["degree 4"].field(t, x) - 20 * out["uniform"].field(t, x))
    weak = ComposedScaled(out["degree 4"].model)
    add("tiny", weak, lambda t, x: LD(1e-100) * out["degree 4"].field(t, x))
    return out


class ComposedScaled(GeomagneticModel):
    """ field of any magnitude """
    def __init__(self, model):
        self.model = model

    validity = (-INF, INF)

    def eval(self, time, location, input_coordinate_system=1, output_coordinate_system=1, **options):
        return 1e-100 * self.model.eval(time, location, input_coordinate_system, output_coordinate_system, **options)


KNOWN = make_known()
LATS, LONS = (-90.0, -60.0, -22.5, 0.0, 35.0, 75.0, 90.0), (0.0, 60.0, -135.0, 180.0)
RADII = (RADIUS, 0.9977 * RADIUS, 5000.0, 6800.0, 20000.0)
LIMITS = ({}, {"min_radius": 6000.0, "max_radius": 9000.0}, {"min_radius": RADIUS}, {"max_radius": 7000.0}, {"min_radius": 100.0, "max_radius": 6000.0},
          {"min_radius": 0.0, "max_radius": INF}, {"min_radius": 7000.0, "max_radius": 6500.0})
STEPS = ({}, {"step": 1.0}, {"step": 400.0}, {"step": 2500.0})
COUNTS = ({"max_steps": 25}, {"max_steps": 1}, {"max_steps": 2}, {"max_steps": 0}, {})


def cartesian(coords, field, kind):
    """ Cartesian points and vectors of the output """
    points = np.asarray(ref.to_cart(coords, kind), LD)
    return points, (np.asarray(field, LD)[..., :, None] * ref.frame(coords, kind)).sum(-2)


def verify(ctx, coords, field, kind, start, exact_field, options, what, exact=False):
    """ all claims about one line """
    coords, field = np.asarray(coords), np.asarray(field)
    if not ctx.require(coords.ndim == 2 and coords.shape[1] == 3 and coords.shape == field.shape, f"{what}: {coords.shape} points and {field.shape} vectors"):
        return None
    points, vectors = cartesian(coords, field, kind)
    o = {**DEFAULT, **{k: v for k, v in options.items() if k in DEFAULT}}
    radius = np.sqrt((points**2).sum(-1))
    ctx.count(len(points))
    expected = exact_field(points)
    size = np.sqrt((expected**2).sum(-1))
    tiny = float(size.max()) if size.size else 0.0
    if not ctx.close((vectors / (tiny or 1)).astype(float), (expected / (tiny or 1)).astype(float), rtol=0, atol=1e-9 if not exact else 1e-15, what=f"{what}: field along the line"):
        return None
    distance = np.sqrt(((points - start)**2).sum(-1))
    found = np.flatnonzero(distance <= 1e-9 * (radius + 1))
    if not ctx.require(len(found) == 1, f"{what}: the start point occurs {len(found)} times in {len(points)} points"):
        return None
    first = int(found[0])
    unit = vectors / np.sqrt((vectors**2).sum(-1))[:, None]
    move = o["step"] * (radius / RADIUS)[:, None] * unit
    for name, here, there, sign in (("forward", slice(first, len(points) - 1), slice(first + 1, len(points)), 1),
                                    ("backward", slice(1, first + 1), slice(0, first), -1)):
        gap = points[there] - (points[here] + sign * move[here])
        error = np.sqrt((gap**2).sum(-1)) / (radius[here] + 1)
        if error.size and not ctx.require(bool(np.all(error < 2e-9)), f"{what}: {name} step {int(np.argmax(error))} of {len(error)} is wrong by {float(error.max()):.3g}"):
            return None
        done = radius[there] if sign > 0 else radius[there][::-1]
        ctx.transition(len(done))
        slack = 0.0 if exact else 1e-9 * np.maximum(done.astype(float), 1)
        beyond = (done <= o["min_radius"] - slack) | (done >= o["max_radius"] + slack)
        near = (done <= o["min_radius"] + slack) | (done >= o["max_radius"] - slack)
        ctx.require(len(done) <= o["max_steps"], f"{what}: {len(done)} {name} steps")
        ctx.require(not np.any(beyond[:-1]), f"{what}: the {name} branch continues beyond the limits")
        if len(done) < o["max_steps"]:
            ctx.require(len(done) > 0 and bool(near[-1]), f"{what}: the {name} branch of {len(done)} steps ended early, at the radius {done[-1:]!r}")
        ctx.state(what.split(" at ")[0], name, len(done))
    return first


# --- start points, steps and limits ---------------------------------------------------------------

def line_cases(tier):
    thorough = tier == "thorough"
    for name in KNOWN:
        for lat, lon, rad in itertools.product(LATS, LONS, RADII):
            if not thorough and (LATS.index(lat) + LONS.index(lon) + RADII.index(rad)) % 2:
                continue
            for limits, steps in itertools.product(range(len(LIMITS)), range(len(STEPS))):
                if not thorough and name not in ("degree 4", "axial dipole") and (limits + steps) % 3:
                    continue
                yield [name, lat, lon, rad, limits, steps]


@group("C16", "start points, steps and limits", line_cases, chunk=16)
def lines(ctx, case):
    name, lat, lon, rad, limits, steps = case
    known = KNOWN[name]
    start = ref.to_cart(np.array([lat, lon, rad]), SPHERICAL)
    place = start.astype(float)
    for count in (COUNTS if steps == 0 and (ctx.thorough or lat in (0.0, 35.0)) else COUNTS[:4]):
        if ctx.thorough and count == {} and limits not in (0, 1, 4):
            continue
        options = {**LIMITS[limits], **STEPS[steps], **count}
        coords, field = em.trace_field_line(known.model, 4.0, place, CARTESIAN, CARTESIAN, trace_options=options)
        verify(ctx, coords, field, CARTESIAN, place.astype(LD), lambda x: known.field(4.0, x), options, f"{name} {options} at {case[1:4]}")


# --- coordinate systems -----------------------------------------------------------------------------

def frame_cases(tier):
    for name in KNOWN:
        if tier == "quick" and name in ("tilted dipole", "uniform"):
            continue
        for lat, lon in itertools.product((-90.0, -37.0, 0.0, 62.5, 90.0), (0.0, 60.0, -179.5, 200.0)):
            yield [name, lat, lon]


@group("C16", "coordinate systems", frame_cases, chunk=2)
def frames(ctx, case):
    name, lat, lon = case
    known = KNOWN[name]
    for height, options in ((0.0, {"max_steps": 40}), (300.0, {"max_radius": 9000.0, "step": 200.0, "max_steps": 60}), (-10.0, {"min_radius": 5000.0, "max_steps": 30})):
        start = np.array([lat, lon, height])
        base = None
        for kin, kout in itertools.product((CARTESIAN, SPHERICAL, GEODETIC), repeat=2):
            point = ref.convert(start, GEODETIC, kin).astype(float)
            if kin == GEODETIC:
                point = start.copy()
            what = f"{name} {kin}->{kout} {options} at {lat} {lon} {height}"
            args = () if (kin, kout) == (1, 1) and height else (kin, kout)
            coords, field = em.trace_field_line(known.model, 4.0, point, *args, trace_options=options)
            exact = ref.to_cart(point, kin)
            if kin != CARTESIAN:
                # the geodetic and geocentric longitudes are kept, whatever turn they are in
                exact = ref.to_cart(np.array([point[0], point[1], point[2]]), kin)
            first = verify(ctx, coords, field, kout, exact, lambda x: known.field(4.0, x), options, what)
            if first is None:
                return
            if kout == SPHERICAL:
                ctx.require(bool(np.all(coords[:, 2] > 0) and np.all(abs(coords[:, 0]) <= 90) and np.all(abs(coords[:, 1]) <= 180)), f"{what}: ranges of the coordinates")
            points = cartesian(coords, field, kout)[0].astype(float)
            if base is None:
                base = points, first
            else:
                ctx.require(first == base[1], f"{what}: {first} points before the start instead of {base[1]}")
                ctx.close(points, base[0], rtol=0, atol=1e-4, what=f"{what}: line compared with the Cartesian one")


# --- fields prescribed at will ------------------------------------------------------------------------

class Stub:
    """ model with a prescribed field; records how it was called """
    def __init__(self, func, buffer=False):
        self.func, self.calls, self.out = func, [], np.zeros(3) if buffer else None

    def eval(self, time, location, input_coordinate_system=1, output_coordinate_system=1, **options):
        location = np.array(location, float)
        self.calls.append((time, tuple(location.tolist()), input_coordinate_system, output_coordinate_system, tuple(sorted(options.items()))))
        value = np.array(self.func(location), float)
        if self.out is None:
            return value
        self.out[...] = value       # the model may reuse its output
        return self.out


FIELDS = {
    "outwards": lambda x: x / 10,
    "inwards": lambda x: -3 * x,
    "around the axis": lambda x: np.array([-x[1], x[0], 0.0]) if x[0] or x[1] else np.array([1.0, 0.0, 0.0]),
    "along x": lambda x: np.array([5.0, 0.0, 0.0]),
    "against z": lambda x: np.array([0.0, 0.0, -0.25]),
    "huge": lambda x: np.array([1e150, -1e150, 1e150]),
    "small": lambda x: np.array([1e-150, 0.0, -2e-150]),
}
STARTS = [(7000.0, 0.0, 0.0), (0.0, -6500.0, 0.0), (0.0, 0.0, 8000.0), (0.0, 0.0, -6400.0), (4000.0, 4000.0, -4000.0)]


def stub_cases(tier):
    for name in FIELDS:
        for start, buffer in itertools.product(range(len(STARTS)), (0, 1)):
            for step, count in itertools.product((100.0, 637.12, 1e-3, 3000.0), (0, 1, 2, 3, 7, 20)):
                yield [name, start, buffer, step, count]


@group("C16", "prescribed fields", stub_cases, chunk=16)
def prescribed(ctx, case):
    name, start, buffer, step, count = case
    func = FIELDS[name]
    place = np.array(STARTS[start])

    def run(options, **more):
        stub = Stub(func, buffer)
        coords, field = em.trace_field_line(stub, 7.5, place, CARTESIAN, CARTESIAN, trace_options=options, **more)
        return stub, coords, field

    def walk(sign, steps):
        x, out = place.copy(), []
        for _ in range(steps):
            b = func(x)
            x = x + sign * step * np.sqrt((x * x).sum()) / (RADIUS * np.sqrt((b * b).sum())) * b
            out.append(x)
        return out

    options = {"step": step, "max_steps": count, "min_radius": 0.0, "max_radius": INF}
    stub, coords, field = run(options, model_options={"max_degree": 3, "scale": 2.0})
    ahead, back = walk(1, count), walk(-1, count)

    def limited(points, low, high):
        out = []
        for p in points:
            out.append(p)
            r = np.sqrt((p * p).sum())
            if r <= low or r >= high:
                break
        return out

    def expect(coords, field, low, high, what):
        line = np.array(limited(back, low, high)[::-1] + [place] + limited(ahead, low, high))
        ctx.count(1)
        ctx.transition(len(line) - 1)
        if not ctx.close(np.asarray(coords), line, rtol=0, atol=1e-9 * np.abs(line).max(), what=f"{what}: points"):
            return False
        exact = np.array([func(p) for p in line])
        scale = np.abs(exact).max()
        return ctx.close(np.asarray(field) / scale, exact / scale, rtol=0, atol=1e-9, what=f"{what}: vectors")

    if not expect(coords, field, 0.0, INF, "unlimited"):
        return
    for call in stub.calls:
        if not ctx.require(call[0] == 7.5 and call[2:4] == (CARTESIAN, CARTESIAN) and call[4] == (("max_degree", 3), ("scale", 2.0)), f"model called with {call}"):
            return
    ctx.require({tuple(p) for p in np.asarray(coords).tolist()} <= {c[1] for c in stub.calls}, "every point is evaluated at itself")
    # limits exactly at, one double before and after each of the reached radii
    norms = np.asarray(em.vnorm(np.array(coords)))
    axial = bool(np.all((np.asarray(coords) != 0).sum(axis=1) == 1))      # norms without rounding
    for r in sorted(set(norms.tolist())):
        for limit in (np.nextafter(r, 0), r, np.nextafter(r, INF)) if axial else (r * (1 - 1e-12), r * (1 + 1e-12)):
            for low, high in ((limit, INF), (0.0, limit)):
                _, some, values = run({"step": step, "max_steps": count, "min_radius": low, "max_radius": high})
                # where the code itself went, cut by the definition
                inside = int(np.flatnonzero((np.asarray(coords) == place).all(1))[0])
                cut = lambda idx: next((n for n, k in enumerate(idx) if norms[k] <= low or norms[k] >= high), len(idx) - 1)
                after = list(range(inside + 1, len(coords)))
                before = list(range(inside - 1, -1, -1))
                keep = before[:cut(before) + 1][::-1] + [inside] + after[:cut(after) + 1]
                ctx.count(1)
                if not ctx.require(np.array_equal(np.asarray(some), np.asarray(coords)[keep]), f"limits {low!r} {high!r}: {len(some)} points instead of {len(keep)}"):
                    return
                if not ctx.require(np.array_equal(np.asarray(values), np.asarray(field)[keep]), f"limits {low!r} {high!r}: vectors"):
                    return


@group("C16", "fields vanishing on the way", lambda tier: [[k, c] for k in range(4) for c in (0, 1, 4, 30)], chunk=4)
def vanishing(ctx, case):
    kind, count = case
    place = np.array([7000.0, 0.0, 0.0])
    # zero field everywhere, outside of a sphere, inside of a sphere, on one side
    func = [lambda x: 0 * x, lambda x: x * (np.sqrt((x * x).sum()) < 7300), lambda x: x * (np.sqrt((x * x).sum()) > 6800), lambda x: x * (x[0] > 7000)][kind]
    coords, field = em.trace_field_line(Stub(func), 0.0, place, CARTESIAN, CARTESIAN, trace_options={"max_steps": count, "min_radius": 0.0})
    coords, field = np.asarray(coords), np.asarray(field)
    ctx.require(coords.shape == field.shape == (2 * count + 1, 3), f"{coords.shape} points and {field.shape} vectors with a zero field")
    ctx.require(bool(np.isfinite(coords).all()), "undefined points")
    exact = np.array([func(p) for p in coords])
    ctx.close(field, exact, rtol=0, atol=1e-9, what="vectors")
    ctx.same(coords[count], place, what="start point")
    for k in range(count):
        for here, there, sign in ((count + k, count + k + 1, 1), (count - k, count - k - 1, -1)):
            b, x = exact[here], coords[here]
            size = np.sqrt((b * b).sum())
            move = sign * 100.0 * np.sqrt((x * x).sum()) / RADIUS * (b / size if size else b)
            ctx.close(coords[there], x + move, rtol=0, atol=1e-6, what=f"step {k}")


# --- ways of passing the arguments -----------------------------------------------------------------------

FORMS = {
    "array": lambda p: np.array(p), "list": list, "tuple": tuple, "integers": lambda p: np.array(p).astype(int), "list of integers": lambda p: [int(v) for v in p],
    "float32": lambda p: np.array(p, "f4"), "big endian": lambda p: np.array(p, ">f8"), "strided": lambda p: np.repeat(np.array(p), 2)[::2],
    "reversed": lambda p: np.array(p)[::-1].copy()[::-1], "read only": lambda p: (lambda a: (a.setflags(write=False), a)[1])(np.array(p)),
    "column": lambda p: np.array([p, p, p]).T[:, 1],
}
CALLS = [None, {}, {"scale": 1.0}, {"scale": -2.0}, {"scale": 1e-6}, {"max_degree": 1}, {"min_degree": 2, "max_degree": 3}, {"scale": 0.0}]


@group("C16", "forms of arguments", lambda tier: [[f, kin, kout, t] for f in FORMS for kin in KINDS for kout in KINDS for t in (0, 1)], chunk=4)
def forms(ctx, case):
    form, kin, kout, trace = case
    start = {CARTESIAN: (6000.0, -3000.0, 2000.0), SPHERICAL: (40.0, 60.0, 6500.0), GEODETIC: (40.0, 60.0, 100.0)}[kin]
    topt = [None, {"max_steps": 20, "step": 50, "max_radius": 7000, "comment": "unused"}][trace]
    if topt is None and not (ctx.thorough or form in ("array", "list", "integers", "read only")):
        return
    for mopt in CALLS if trace else CALLS[:2]:
        for time in (4.0, 4, np.float64(4.0), np.array(4.0)):
            if (mopt or topt is None) and time is not 4.0 and not isinstance(time, np.ndarray):
                continue
            model = KNOWN["degree 4"].model
            want = em.trace_field_line(model, 4.0, np.array(start), kin, kout, trace_options=topt and dict(topt), model_options=mopt and dict(mopt))
            point = FORMS[form](start)
            kept = [snapshot(v) for v in (point, topt, mopt, time)]
            got = em.trace_field_line(model, time, point, kin, kout, trace_options=topt, model_options=mopt)
            ctx.count(2)
            ctx.require([snapshot(v) for v in (point, topt, mopt, time)] == kept, "arguments modified")
            for a, b, what in zip(got, want, ("points", "vectors")):
                if not ctx.same(np.asarray(a), np.asarray(b), what=f"{what}, {mopt}"):
                    return
            for value in got:
                ctx.require(not (isinstance(point, np.ndarray) and np.shares_memory(np.asarray(value), point)), "result shares the start point")


@group("C16", "model options", lambda tier: [[k, lat, lon] for k in range(len(CALLS)) for lat in LATS for lon in LONS], chunk=4)
def model_options(ctx, case):
    k, lat, lon = case
    options = CALLS[k] or {}
    nm = [tuple(v) for v in catalog.nm_full(4).tolist()]
    strong = ref.generic(len(nm), salt=950) * 3000
    strong[0] = -29000
    low, high = options.get("min_degree", 0), options.get("max_degree", 99)
    coef = full(nm, [v if low <= n <= high else 0.0 for (n, _), v in zip(nm, strong)])
    scale = options.get("scale", 1.0)
    start = ref.to_cart(np.array([lat, lon, 6700.0]), SPHERICAL).astype(float)
    topt = {"max_steps": 30, "max_radius": 8000.0}
    coords, field = em.trace_field_line(KNOWN["degree 4"].model, 0.0, start, CARTESIAN, CARTESIAN, topt, CALLS[k])
    if scale == 0:
        ctx.require(np.asarray(coords).shape == (61, 3) and np.asarray(field).shape == (61, 3), "size of a line without field")
        ctx.same(np.asarray(coords), np.tile(start, (61, 1)), what="points without field")
        ctx.same(np.abs(np.asarray(field)), np.zeros((61, 3)), what="vectors without field")
        return
    verify(ctx, coords, field, CARTESIAN, start.astype(LD), lambda x: scale * spherical(coef)(0.0, x), topt, f"{options} at {lat} {lon}")
    if set(options) == {"scale"}:
        plain, values = em.trace_field_line(KNOWN["degree 4"].model, 0.0, start, CARTESIAN, CARTESIAN, topt)
        turn = slice(None, None, -1 if scale < 0 else 1)
        ctx.close(np.asarray(coords)[turn], np.asarray(plain), rtol=0, atol=1e-6, what="the line does not depend on the magnitude of the field")
        ctx.close(np.asarray(field)[turn], scale * np.asarray(values), rtol=0, atol=1e-6, what="vectors follow the scale")


@group("C16", "times", lambda tier: [[t, lat, lon] for t in (0.0, 4.0, 10.0, 17.25, 30.0) for lat in (-60.0, 0.0, 35.0) for lon in LONS], chunk=4)
def times(ctx, case):
    time, lat, lon = case
    for name in ("linear", "dipole frame"):
        start = ref.to_cart(np.array([lat, lon, 6700.0]), SPHERICAL).astype(float)
        topt = {"max_steps": 30, "max_radius": 8000.0}
        coords, field = em.trace_field_line(KNOWN[name].model, time, start, CARTESIAN, CARTESIAN, topt)
        verify(ctx, coords, field, CARTESIAN, start.astype(LD), lambda x: KNOWN[name].field(time, x), topt, f"{name} {time} at {lat} {lon}")


@group("C16", "sequences of lines", lambda tier: list(itertools.product(range(6), repeat=2 if tier == "quick" else 3)), chunk=4)
def sequences(ctx, case):
    """ a line does not depend on the lines traced before """
    def one(k):
        name = ("degree 4", "linear", "dipole frame")[k % 3]
        start = np.array([(40.0, 60.0, 6500.0), (-20.0, 10.0, 7000.0)][k // 3])
        return em.trace_field_line(KNOWN[name].model, 4.0 + k, start, trace_options={"max_steps": 8 + k, "step": 50.0 * (k + 1)})
    alone = {k: one(k) for k in sorted(set(case))}
    for k in case:
        got = one(k)
        ctx.transition(1)
        for a, b in zip(got, alone[k]):
            ctx.same(np.asarray(a), np.asarray(b), what=f"line {k} in the sequence {case}")


# --- long lines ---------------------------------------------------------------------------

@group("C16", "long lines", lambda tier: [[n, f] for n in ([*range(20, 70, 7), 99, 100, 101, 127, 128, 129, 255, 256, 257, 499, 500, 501, 512, 513, 1000, 1025] + ([2500, 5000] if tier == "thorough" else []))
                                          for f in ("outwards", "around the axis", "along x", "default")], chunk=2)
def long_lines(ctx, case):
    """ no number of steps is special """
    count, name = case
    place = np.array(STARTS[0])
    func = FIELDS["against z" if name == "default" else name]
    options = {"step": 2.0, "max_steps": count, "min_radius": 0.0, "max_radius": INF}
    if name == "default":       # the default number of steps
        options.pop("max_steps")
        options["step"] = 0.001 * count
    steps = options.get("max_steps", DEFAULT["max_steps"])
    line = {0: place}
    for sign in (1, -1):
        x = place.copy()
        for k in range(1, steps + 1):
            b = func(x)
            x = x + sign * options["step"] * np.sqrt((x * x).sum()) / (RADIUS * np.sqrt((b * b).sum())) * b
            line[sign * k] = x
    coords, field = em.trace_field_line(Stub(func), 7.5, place, CARTESIAN, CARTESIAN, trace_options=options)
    exact = np.array([line[k] for k in range(-steps, steps + 1)])
    ctx.count(1)
    ctx.transition(len(exact))
    if ctx.close(np.asarray(coords), exact, rtol=0, atol=1e-9 * np.abs(exact).max(), what=f"{name}: points of the line of {count} steps"):
        vectors = np.array([func(p) for p in exact])
        ctx.close(np.asarray(field), vectors, rtol=0, atol=1e-9 * np.abs(vectors).max(), what=f"{name}: vectors of the line of {count} steps")
