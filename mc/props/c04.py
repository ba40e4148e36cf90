""" C04 - results depend on values only, inputs are left untouched """
import copy
import itertools
import numpy as np
import eoxmagmod as em
from eoxmagmod import _pymm
from ..core import group
from .. import catalog, layouts, ref
from .c03 import load, ENTRIES, ORDER


def base_args(entry, shape, finite_only=True, rounded=None):
    """ full-shape argument arrays filled with the alphabet's elements """
    elems = entry.elements
    if finite_only:
        elems = [e for e in elems if all(np.all(np.isfinite(v)) for v in e)] or elems
    count = max(1, int(np.prod(shape)))
    arrays = entry.stack([elems[(3 * j) % len(elems)] if len(elems) % 3 else elems[j % len(elems)] for j in range(count)])
    if 0 in shape:
        arrays = [a[:0].reshape(tuple(shape) + a.shape[1:]) for a in arrays]
    else:
        arrays = [a.reshape(tuple(shape) + a.shape[1:]) if shape else a[0] for a in arrays]
    if rounded:
        out = []
        for a in arrays:
            a = np.rint(a)
            a = np.array([[rounded(v) for v in a.ravel()]]).reshape(a.shape)
            out.append(a)
        arrays = out
    return [np.array(a) for a in arrays]


def fit(name):
    """ value usable without loss in the element type """
    if name == "uint8":
        return lambda v: float(abs(int(v)) % 90)
    if name in ("float16", "int16"):
        return lambda v: float(int(v) % 1024) if abs(v) > 1024 else float(int(v))
    return lambda v: float(int(v))


def agree(ctx, entry, got, expected, what):
    if not ctx.require(len(got) == len(expected), f"{what}: {len(got)} results"):
        return False
    for k, (a, b) in enumerate(zip(got, expected)):
        mag = np.where(np.isfinite(b), np.abs(b), 0) if b.size else b
        scale = np.broadcast_to(mag.max(), b.shape) if b.size else None
        if not ctx.close(a, b, rtol=1e-13 if entry.group != "qd" else 1e-6, atol=1e-300, scale=scale, what=f"{what} result {k}"):
            return False
    return True


def untouched(ctx, originals, copies, what):
    for k, (a, b) in enumerate(zip(originals, copies)):
        a, b = np.asarray(a), np.asarray(b)
        same = a.dtype == b.dtype and a.shape == b.shape and (
            np.array_equal(a, b, equal_nan=a.dtype.kind == "f") if a.dtype != object else a.tolist() == b.tolist())
        if not ctx.require(same, f"{what}: argument {k} was modified"):
            return False
    return True


# --- layouts and element types ---------------------------------------------------

def layout_cases(tier):
    load()
    for name in ORDER:
        for layout in layouts.BY_NAME:
            yield [name, layout]


@group("C04", "layouts and element types", layout_cases, chunk=8)
def layout_group(ctx, case):
    name, layout = case
    entry = load()[name]
    hold = layouts.BY_NAME[layout]
    rounded = fit(layout) if layout in layouts.ROUNDED else None
    shapes = [(), (3,), (2, 3)] if not ctx.thorough else [(), (1,), (3,), (2, 3), (0,), (2, 0), (2, 2, 2)]
    for shape in shapes:
        if len(shape) > entry.max_ndim:
            continue
        if 0 in shape and layout in ("nested_list", "nested_tuple", "list_of_arrays"):
            continue    # an empty list has no core dimension
        base = base_args(entry, shape, rounded=rounded)
        try:
            expected = entry(*[np.array(a) for a in base])
        except ValueError:
            if rounded:     # the rounded values are not acceptable (e.g. a zero radius)
                continue
            raise
        which = [tuple(range(len(base)))] + [(k,) for k in range(len(base))]
        for chosen in which:
            args = [hold(a) if k in chosen else np.array(a) for k, a in enumerate(base)]
            keep = copy.deepcopy(args)
            got = entry(*args)
            ctx.count(1)
            what = f"{name} {layout} shape {shape} args {chosen}"
            if not agree(ctx, entry, got, expected, what):
                return
            if not untouched(ctx, args, keep, what):
                return
            for res in got:
                for arg in args:
                    if isinstance(arg, np.ndarray) and arg.dtype != object:
                        if not ctx.require(not np.may_share_memory(res, arg) or not np.shares_memory(res, arg),
                                           f"{what}: result shares memory with an argument"):
                            return


# --- arguments of fewer dimensions -------------------------------------------------

def shorter_cases(tier):
    load()
    for name in ORDER:
        if len(ENTRIES[name].args) > 1 and ENTRIES[name].bcast != "same":
            for layout in layouts.BY_NAME:
                if layout not in layouts.ROUNDED:
                    yield [name, layout]


@group("C04", "arguments of fewer dimensions", shorter_cases, chunk=8)
def shorter(ctx, case):
    """ the held arguments have fewer or more leading dimensions than the others """
    name, layout = case
    entry = load()[name]
    hold = layouts.BY_NAME[layout]
    for full, short in (((3, 2), (3,)), ((2, 3), (2,)), ((3,), ()), ((2, 2, 2), (2,)), ((2, 2, 2), (2, 2))):
        if len(full) > entry.max_ndim or (entry.bcast == "scalar" and short):
            continue
        base = base_args(entry, full)
        for reduced in range(len(base)):
            plain = []
            for k, (a, (_, core)) in enumerate(zip(base, entry.args)):
                plain.append(np.array(a[(slice(None),) * len(short) + (0,) * (len(full) - len(short))]) if k == reduced else np.array(a))
            try:
                expected = entry(*[np.array(a) for a in plain])
            except ValueError:      # this argument cannot be shorter
                continue
            for chosen in [tuple(range(len(base)))] + [(k,) for k in range(len(base))]:
                args = [hold(a) if k in chosen else np.array(a) for k, a in enumerate(plain)]
                keep = copy.deepcopy(args)
                got = entry(*args)
                ctx.count(1)
                what = f"{name} {layout} shapes {full} and {short} argument {reduced} shorter, held {chosen}"
                if not agree(ctx, entry, got, expected, what) or not untouched(ctx, args, keep, what):
                    return


# --- broadcast (zero stride) arguments --------------------------------------------

def zero_cases(tier):
    load()
    for name in ORDER:
        yield [name]


@group("C04", "zero-stride arguments", zero_cases, chunk=8)
def zero_stride(ctx, case):
    entry = load()[case[0]]
    for shape in ((3,), (2, 3), (3, 2)):
        if len(shape) > entry.max_ndim:
            continue
        base = base_args(entry, shape)
        for mask in itertools.product((0, 1, 2, 3), repeat=len(base)):
            if sum(m > 0 for m in mask) > 2:
                continue
            args, plain = [], []
            for a, m, (_, core) in zip(base, mask, entry.args):
                lead = a.ndim - core
                if m == 1:      # constant over all leading axes
                    view = np.broadcast_to(a[(0,) * lead], a.shape)
                elif m == 2:    # constant over the last leading axis
                    view = np.broadcast_to(np.take(a, [0], axis=lead - 1), a.shape)
                elif m == 3 and lead > 1:    # constant over the first axis
                    view = np.broadcast_to(a[:1], a.shape)
                else:
                    view = a
                args.append(view)
                plain.append(np.array(view))
            keep = [np.array(a) for a in args]
            got = entry(*args)
            expected = entry(*plain)
            ctx.count(1)
            what = f"{case[0]} shape {shape} zero strides {mask}"
            if not agree(ctx, entry, got, expected, what) or not untouched(ctx, args, keep, what):
                return


# --- aliasing: the same array as several arguments ---------------------------------

@group("C04", "one array passed twice", zero_cases, chunk=8)
def same_array(ctx, case):
    entry = load()[case[0]]
    cores = [c for _, c in entry.args]
    for i, j in itertools.combinations(range(len(cores)), 2):
        if cores[i] != cores[j]:
            continue
        base = base_args(entry, (3,))
        if base[i].shape != base[j].shape:
            continue
        base[j] = np.array(base[i])
        expected = entry(*[np.array(a) for a in base])
        args = [np.array(a) for a in base]
        args[j] = args[i]
        keep = [np.array(a) for a in args]
        got = entry(*args)
        what = f"{case[0]} arguments {i} and {j} the same array"
        if not agree(ctx, entry, got, expected, what) or not untouched(ctx, args, keep, what):
            return
    # overlapping views: a sliding window over one buffer for vector arguments
    if len(cores) == 1 and cores[0] == 1:
        buf = np.array(entry.elements[0][0] + entry.elements[1][0] + entry.elements[2][0], float)
        view = np.lib.stride_tricks.as_strided(buf, shape=(7, 3), strides=(8, 8))
        keep = buf.copy()
        got = entry(view)
        agree(ctx, entry, got, entry(np.array(view)), f"{case[0]} overlapping window")
        untouched(ctx, [buf], [keep], f"{case[0]} overlapping window")


# --- later modification of inputs and results ---------------------------------------

@group("C04", "modification between calls", zero_cases, chunk=8)
def modification(ctx, case):
    name = case[0]
    entry = load()[name]
    for shape in ((), (3,), (2, 2), (0,)):
        if len(shape) > entry.max_ndim:
            continue
        base = base_args(entry, shape, finite_only=False)
        first_args = [np.array(a) for a in base]
        first = entry(*first_args)
        first_copy = [np.array(r) for r in first]
        other_args = base_args(entry, shape)[::1]
        other_args = [np.roll(a, 1, axis=0) if a.ndim > c else a for a, (_, c) in zip(other_args, entry.args)]
        other = entry(*other_args)
        what = f"{name} shape {shape}"
        for a, b in itertools.product(first, other):
            ctx.require(not np.shares_memory(a, b), f"{what}: results of two calls share memory")
        for a, b in itertools.combinations(first, 2):
            ctx.require(not np.shares_memory(a, b), f"{what}: outputs of one call overlap")
        for k, (a, b) in enumerate(zip(first, first_copy)):
            ctx.require(np.array_equal(a, b, equal_nan=True), f"{what}: a later call changed result {k}")
        for a in first_args:
            a[...] = -12345.0
        for k, (a, b) in enumerate(zip(first, first_copy)):
            ctx.require(np.array_equal(a, b, equal_nan=True), f"{what}: changing the input changed result {k}")
        for a in first:
            if a.ndim and ctx.require(a.flags.writeable, f"{what}: result is not writable"):
                a[...] = 9.75
        again = entry(*[np.array(a) for a in base])
        agree(ctx, entry, again, first_copy, f"{what} after overwriting the result")
        ctx.count(3)


# --- calls of one function do not influence another ---------------------------------

def pair_cases(tier):
    load()
    for name in ORDER:
        yield [name]


@group("C04", "pairs of functions", pair_cases, chunk=2)
def pairs(ctx, case):
    """ the same call before and after every other function """
    first = load()[case[0]]
    args = base_args(first, (2,) if first.max_ndim else ())
    expected = [np.array(r) for r in first(*[np.array(a) for a in args])]
    for name in ORDER:
        second = load()[name]
        other = base_args(second, (2,), finite_only=False)
        for r in second(*other):
            if r.ndim:
                r[...] = -1.0
        got = first(*args)
        ctx.count(2)
        ctx.transition(2)
        if not agree(ctx, first, got, expected, f"{case[0]} after {name}"):
            return
    ctx.state(case[0])


# --- model and coefficient objects are not changed by evaluating them ---------------

def snapshot(obj, depth=0, seen=None):
    """ recursive picture of an object's data """
    seen = set() if seen is None else seen
    if isinstance(obj, np.ndarray):
        return ("array", obj.dtype.str, obj.shape, obj.tobytes() if obj.dtype != object else repr(obj))
    if isinstance(obj, (int, float, str, bool, type(None), np.generic)):
        return repr(obj)
    if isinstance(obj, (list, tuple)):
        return (type(obj).__name__,) + tuple(snapshot(v, depth + 1, seen) for v in obj)
    if isinstance(obj, dict):
        return ("dict",) + tuple((repr(k), snapshot(v, depth + 1, seen)) for k, v in sorted(obj.items(), key=lambda kv: repr(kv[0])))
    if isinstance(obj, (set, frozenset)):
        return ("set",) + tuple(sorted(repr(v) for v in obj))
    if callable(obj) and not hasattr(obj, "coefficients"):
        if not hasattr(obj, "__dict__") or not obj.__class__.__module__.startswith("eoxmagmod"):
            return getattr(obj, "__qualname__", repr(type(obj)))
    if id(obj) in seen or depth > 12:
        return "seen"
    seen.add(id(obj))
    if hasattr(obj, "__dict__"):
        return (type(obj).__name__, snapshot(vars(obj), depth + 1, seen))
    return type(obj).__name__


def call_sequences(tier):
    for name in catalog.MODELS:
        for kin, kout in itertools.product((0, 1, 2), repeat=2):
            yield [name, kin, kout]


OPTIONS = [{}, {"scale": 2.0}, {"scale": [1.0, -1.0, 0.5]}, {"max_degree": 1}, {"min_degree": 2, "max_degree": 2, "scale": 3.0}]


@group("C04", "model histories", call_sequences, chunk=4)
def histories(ctx, case):
    """ all sequences of two option sets and two time/location pairs """
    name, kin, kout = case
    model = catalog.MODELS[name]
    loc = catalog.locations(kin, bad=False)
    calls = []
    for opts in OPTIONS:
        for t, x in ((4.0, loc[0]), (np.array([17.0, 4.0, np.nan]), np.array(loc[1:4]))):
            extra = dict(opts)
            if name in catalog.MIO_NAMES:
                extra.update(f107=np.array(80.0), lat_sol=np.array(10.0), lon_sol=np.array(-30.0))
            if isinstance(extra.get("scale"), list):
                extra["scale"] = np.array(extra["scale"])
            calls.append((t, x, extra))

    def run(call):
        t, x, opts = call
        t, x = copy.deepcopy(t), np.array(x)
        opts = copy.deepcopy(opts)
        keep = copy.deepcopy((t, x, opts))
        res = model.eval(t, x, kin, kout, **opts)
        ctx.count(1)
        for a, b, label in ((t, keep[0], "time"), (x, keep[1], "location")):
            ctx.require(np.array_equal(a, b, equal_nan=True), f"{name}: {label} modified by eval")
        ctx.require(sorted(opts) == sorted(keep[2]) and all(
            np.array_equal(opts[k], keep[2][k]) for k in opts), f"{name}: options modified by eval")
        return res

    before = snapshot(model)
    alone = [np.array(run(c)) for c in calls]
    for i, j in itertools.product(range(len(calls)), repeat=2):
        a = run(calls[i])
        a[...] = 1e9
        b = run(calls[j])
        ctx.transition(2)
        if not ctx.same(b, alone[j], f"{name} call {j} after call {i}"):
            return
    ctx.require(snapshot(model) == before, f"{name}: evaluation changed the model object")
    ctx.state(name, kin, kout)


# --- coefficient inputs -----------------------------------------------------------

def coef_cases(tier):
    for layout in list(layouts.BY_NAME):
        for what in ("shevaltemp", "sheval2dfs", "interp", "fourier2d", "bisect", "sheval", "sheval_dipole", "Constant", "Linear", "LinearDY", "MIO", "scale"):
            yield [what, layout]


RAW = ("shevaltemp", "sheval2dfs")


@group("C04", "coefficient arguments", coef_cases, chunk=4)
def coefficients(ctx, case):
    what, layout = case
    hold = layouts.BY_NAME[layout]
    rounded = layout in layouts.ROUNDED
    rnd = (lambda a: np.abs(np.rint(a))) if rounded else (lambda a: a)
    nm = catalog.nm_full(2)
    nodes = np.array([0.0, 10.0, 30.0])
    gh = rnd(ref.generic(len(nm), 3, salt=61) * 90)
    ab = rnd(ref.generic(len(nm), 3, 2, 2, salt=62) * 90)
    coef = rnd(ref.generic_coef(3, salt=63, n0=True, scale=90))
    x = np.array(catalog.LOC_SPH[:3])
    t = np.array([3.0, 11.0, 40.0])
    unsigned = layout == "uint8"

    def hold_nm(a):
        a = np.array(a)
        if rounded:
            return a.astype("i4" if what in RAW else layout if layout.startswith("int") else "int8")
        return hold(a.astype("i4") if what in RAW else a)
    scale = np.array([2.0, 3.0, 1.0])
    cases = {
        "shevaltemp": (lambda a, b, c: _pymm.shevaltemp(t, x, [(a, b, c, 2), (a, b, c, 1)], 1, 0, mode=3), [nodes, gh, nm], 2),
        "sheval2dfs": (lambda b, c: _pymm.sheval2dfs(t, t, x, (b, c, -1, 0, 1.0, 0.3), 1, 2, mode=3), [ab, nm], 1),
        "interp": (lambda a, b: _pymm.interp(t, a, b, extrapolate=True), [nodes, gh], 2),
        "fourier2d": (lambda b: _pymm.fourier2d(t, t, b, -1, 0), [ab], 1),
        "bisect": (lambda a: _pymm.bisect(a, t), [nodes], 1),
        "sheval": (lambda c: em.sheval(x, c, 1, 0, mode=3), [coef], 1),
        "sheval_dipole": (lambda c: em.sheval_dipole(x, c, 80.0, -70.0, 1, 0), [coef], 1),
        "scale": (lambda s: (em.sheval(x, coef, 1, 1, scale_gradient=s), em.sheval_dipole(x, coef, 80., -70., 1, 1, scale_gradient=s),
                             _pymm.shevaltemp(t, x, [(nodes, gh, nm.astype("i4"), 2)], 1, 1, scale_gradient=s),
                             _pymm.sheval2dfs(t, t, x, (ab, nm.astype("i4"), -1, 0, 1.0, 0.3), 1, 1, scale_gradient=s)), [scale], 1),
        "Constant": (lambda c, b: catalog.Constant(c, b)(t)[0], [nm, gh[:, 0]], 0),
        "Linear": (lambda c, b, a: catalog.Linear(c, b, a)(t)[0], [nm, gh, nodes], 0),
        "LinearDY": (lambda c, b, a: catalog.LinearDY(c, b, a)(t)[0], [nm, gh, nodes + 2000], 0),
        "MIO": (lambda c, b: catalog.MIO(c, b, (0, 1, -1, 1))(t, t)[0], [nm, ab], 0),
    }
    func, base, _ = cases[what]
    base = [np.array(b) for b in base]
    if what == "LinearDY" and layout in ("float16", "uint8"):
        return      # years are not representable
    if what == "MIO" and layout in ("nested_list", "nested_tuple", "list_of_arrays"):
        return      # requires arrays
    if unsigned:
        base = [np.abs(b) if b.dtype.kind == "f" else b for b in base]
        base = [np.minimum(b, 200) if b.dtype.kind == "f" and what != "LinearDY" else b for b in base]
    as_tuple = lambda r: r if isinstance(r, tuple) else (r,)
    plain = [b.astype("i4") if b is nm or b.dtype.kind == "i" else b for b in base]
    expected = [np.array(r) for r in as_tuple(func(*plain))]
    index = [k for k, b in enumerate(base) if b.dtype.kind == "i"]
    for chosen in [tuple(range(len(base)))] + [(k,) for k in range(len(base))]:
        args = [(hold_nm(b) if k in index else hold(b)) if k in chosen else plain[k] for k, b in enumerate(base)]
        keep = copy.deepcopy(args)
        got = as_tuple(func(*args))
        ctx.count(1)
        label = f"{what} {layout} {chosen}"
        for a, b in zip(got, expected):
            if not ctx.close(a, b, rtol=1e-13, atol=0, scale=float(np.abs(b).max()), what=label):
                return
        if not untouched(ctx, args, keep, label):
            return


# --- coefficient objects own their data ----------------------------------------------

def own_cases(tier):
    return [[n] for n in ("Constant", "Linear", "LinearDY", "MIO", "Constant external")]


@group("C04", "coefficient objects own their data", own_cases, chunk=1)
def ownership(ctx, case):
    nm = catalog.nm_full(2)
    gh = ref.generic(len(nm), 3, salt=64) * 90
    ab = ref.generic(len(nm), 3, 2, 2, salt=65) * 90
    nodes = np.array([0.0, 10.0, 30.0])
    data = {
        "Constant": lambda: (catalog.Constant, [nm.copy(), gh[:, 0].copy()]),
        "Constant external": lambda: (lambda a, b: catalog.Constant(a, b, is_internal=False), [nm.copy(), gh[:, 0].copy()]),
        "Linear": lambda: (catalog.Linear, [nm.copy(), gh.copy(), nodes.copy()]),
        "LinearDY": lambda: (catalog.LinearDY, [nm.copy(), gh.copy(), nodes / 100 + 2000]),
        "MIO": lambda: (lambda a, b: catalog.MIO(a, b, (0, 1, -1, 1)), [nm.copy(), ab.copy()]),
    }[case[0]]
    build, args = data()
    coefs = build(*args)
    call = (lambda: coefs(np.array([3.0]), np.array([4.0]))[0]) if case[0] == "MIO" else (lambda: coefs(np.array([3.0]))[0])
    before = np.array(call())
    valid = coefs.validity
    for a in args:
        a[...] = 1
    ctx.same(call(), before, f"{case[0]}: changing the constructor's arguments changed the coefficients")
    ctx.require(tuple(valid) == tuple(coefs.validity), f"{case[0]}: validity changed")
    res = call()
    res[...] = 5
    ctx.same(call(), before, f"{case[0]}: changing returned coefficients changed the set")


# --- results belong to the caller ----------------------------------------------------------------

def returned_calls():
    """ calls of the parts implemented in Python """
    from eoxmagmod.dipole_coords import get_dipole_rotation_matrix
    from eoxmagmod import magnetic_model
    from eoxmagmod.magnetic_model import loader_mio, util
    from . import c14
    nm = catalog.nm_full(2)
    gh = ref.generic(len(nm), 3, salt=66) * 90
    ab = ref.generic(len(nm), 3, 2, 2, salt=67) * 90
    nodes = [0.0, 10.0, 30.0]
    linear = catalog.Linear(nm, gh, nodes)
    step = catalog.Linear(nm, gh, nodes, spline_order=1)
    const = catalog.Constant(nm, gh[:, 0])
    mio = catalog.MIO(nm, ab, (0, 1, -1, 1))
    composed = catalog.Composed(catalog.Linear(nm, gh, nodes), catalog.Linear(nm[:2], -gh[:2], [30.0, 40.0, 50.0]))
    combined = catalog.Combined(linear, const)
    place = np.array([33.0, -50.0, 6900.0])
    calls = {
        "rotation matrix": lambda: [get_dipole_rotation_matrix(80.0, -72.0)],
        "rotation matrix of arrays": lambda: [get_dipole_rotation_matrix(np.float64(80.0), np.array(-72.0))],
        "relative coefficients": lambda: [loader_mio.convert_external_mio_coeff(2, nm, ab, 110.0)],
    }
    for name, coefs in (("linear", linear), ("step", step), ("constant", const), ("composed", composed), ("combined", combined)):
        calls[name + " at one time"] = lambda coefs=coefs: [coefs(12.0)[0]]
        calls[name + " at no time"] = lambda coefs=coefs: [coefs(np.zeros(0))[0]]
        calls[name + " at times"] = lambda coefs=coefs: [coefs(np.array([0.0, 12.0, 30.0]))[0]]
        calls[name + " limited"] = lambda coefs=coefs: [coefs(12.0, min_degree=2, max_degree=2)[0]]
        for frame, model in (("model", catalog.SHModel(coefs)), ("dipole model", catalog.DipoleModel(coefs, (80.0, -72.0)))):
            calls[f"{name} {frame}"] = lambda model=model: [model.eval(12.0, place), model.eval([1.0, 12.0], [place, place]), model.eval(12.0, place, 1, 0, scale=2.0)]
            calls[f"{name} {frame} outside"] = lambda model=model: [model.eval(1e6, place), model.eval([-1e6, np.nan], [place, place])]
            calls[f"line of {name} {frame}"] = lambda model=model: list(em.trace_field_line(model, 12.0, place, trace_options={"max_steps": 3}))
    calls["ionospheric coefficients"] = lambda: [mio(12.0, 3.0)[0], mio(np.array([12.0, 20.0]), np.array([3.0, 4.0]))[0]]
    sums = magnetic_model.model_composed.ComposedGeomagneticModel(catalog.SHModel(linear))
    sums.push(catalog.SHModel(const), 2.0)
    calls["sum of models"] = lambda: [sums.eval(12.0, place), sums.eval([12.0, 13.0], place)]
    calls["sum of no models"] = lambda: [magnetic_model.model_composed.ComposedGeomagneticModel().eval([1.0, 2.0], place)]
    terms, extent = c14.PATTERNS["full 3"], c14.MIO_EXTENTS[1]
    mio_path = c14.write(c14.mio_text(terms, c14.mio_values(terms, extent, 947), c14.mio_values(terms, extent, 948), extent, 10.0, -72.0, 110.0, 0.015))
    shc_path = c14.write(c14.shc_text(terms, c14.numbers(len(terms), 3, 949), c14.YEARS[3], 2), ".shc")

    def parsed(func, path):
        with open(path, encoding="ascii") as fin:
            data = func(fin)
        return [data[key] for key in sorted(data) if isinstance(data[key], np.ndarray)]

    calls["parsed SHC file"] = lambda: parsed(magnetic_model.parser_shc.parse_shc_file, shc_path)
    calls["parsed MIO file"] = lambda: parsed(magnetic_model.parser_mio.parse_swarm_mio_file, mio_path)

    def loaded():
        out = []
        for load, extra in ((loader_mio.load_coeff_swarm_mio_internal, ()), (loader_mio.load_coeff_swarm_mio_external, (True,)), (loader_mio.load_coeff_swarm_mio_external, (False,))):
            coefs, data = load(mio_path, *extra)
            out += [coefs(12.0, 3.0)[0]] + [data[key] for key in sorted(data) if isinstance(data[key], np.ndarray)]
        return out

    calls["loaded MIO file"] = loaded
    return calls


@group("C04", "results belong to the caller", lambda tier: [[name] for name in returned_calls()], chunk=4)
def returned(ctx, case):
    """ changed results influence neither the other results nor the later calls """
    call = returned_calls()[case[0]]
    first = call()
    kept = [np.array(r) for r in first]
    second = call()
    for k, r in enumerate(second):
        ctx.same(r, kept[k], f"{case[0]}: result {k} of the same call again")
        ctx.require(r.flags.writeable or not r.ndim, f"{case[0]}: result {k} is not writable")
    for k, r in enumerate(second):
        if r.ndim:
            r[...] = 7
        for j, other in enumerate(first):
            ctx.same(other, kept[j], f"{case[0]}: changing result {k} changed result {j} of the earlier call")
    for k, r in enumerate(call()):
        ctx.same(r, kept[k], f"{case[0]}: result {k} after the earlier results were changed")
    ctx.count(3)


# --- calls of one function with different parameters ------------------------------------

def parameter_variants():
    """ {function: list of calls without arguments}; equal array arguments with different parameters """
    # the last element is the same as the first one
    lat, lon, rad = np.array([10.0, -55.0, 90.0, 10.0]), np.array([20.0, 200.0, 0.0, 20.0]), np.array([7000.0, 6371.2, 6571.2, 7000.0])
    sph = np.stack([lat, lon, rad], axis=-1)
    times = np.array([4.0, 17.0, 10.0, 4.0])
    first, second, third = (ref.generic_coef(3, salt=k) for k in (71, 72, 73))
    nm = catalog.nm_full(2).astype("i4")
    out = {}
    out["relradpow"] = [lambda d=d, r=r, i=i: _pymm.relradpow(rad, d, r, i) for d in (3, 5) for r in (6371.2, 7000.0, 6000.0) for i in (True, False)]
    out["legendre"] = [lambda d=d, x=x: _pymm.legendre(x, d) for d in (1, 2, 3, 7, 20) for x in (lat, lat[:1], -lat)]
    out["loncossin"] = [lambda d=d, f=f, x=x: _pymm.loncossin(x, d, f) for d in (1, 2, 5) for f in (0, 1) for x in (lon, lon[:1])]
    blocks = {d: (*_pymm.legendre(lat, d), _pymm.relradpow(rad, d), _pymm.loncossin(lon, d)) for d in (2, 3)}
    ext = _pymm.relradpow(rad, 3, is_internal=False)
    out["spharpot"] = [lambda c=c, d=d: _pymm.spharpot(rad, c, blocks[3][0], blocks[3][2], blocks[3][3], degree=d) for c in (first, second) for d in (-1, 1, 2)]
    out["sphargrd"] = [lambda c=c, d=d, i=i: _pymm.sphargrd(lat, c, *blocks[3][:2], blocks[3][2] if i else ext, blocks[3][3], i, d) for c in (first, second) for d in (-1, 1, 2) for i in (True, False)]
    out["sheval"] = [lambda c=c, m=m, i=i, d=d, k=k, s=s: em.sheval(sph, c, 1, k, mode=m, is_internal=i, degree=d, scale_potential=s, scale_gradient=s)
                     for c, m, i, d, k, s in [(first, 2, True, -1, 1, 1.0), (second, 2, True, -1, 1, 1.0), (first, 1, True, -1, 1, 1.0), (first, 3, True, -1, 1, 1.0), (first, 2, False, -1, 1, 1.0), (first, 2, True, 2, 1, 1.0), (first, 2, True, 1, 1, 1.0), (first, 2, True, -1, 0, 1.0), (first, 2, True, -1, 2, 1.0), (first, 3, True, -1, 1, -2.0), (third[:6], 3, True, -1, 1, 1.0)]]
    out["sheval of other frames"] = [lambda k=k, o=o: em.sheval(np.where(np.arange(3) == 2, 500.0, sph) if not k else sph, first, k, o, mode=3) for k in (0, 1, 2) for o in (0, 1, 2)]
    out["sheval_dipole"] = [lambda a=a, b=b, k=k, o=o, c=c: em.sheval_dipole(sph, c, a, b, k, o, mode=3)
                            for a, b, k, o, c in [(80.0, -70.0, 1, 1, first), (70.0, -70.0, 1, 1, first), (80.0, 10.0, 1, 1, first), (80.0, -70.0, 2, 1, first), (80.0, -70.0, 1, 2, first), (80.0, -70.0, 1, 0, first), (80.0, -70.0, 1, 1, second)]]
    sets = {"a": (np.array([0.0, 10.0, 30.0]), ref.generic(len(nm), 3, salt=74), nm, 2), "b": (np.array([0.0, 10.0, 30.0]), ref.generic(len(nm), 3, salt=75), nm, 2),
            "c": (np.array([0.0, 12.0, 30.0]), ref.generic(len(nm), 3, salt=74), nm, 2), "d": (np.array([0.0, 10.0, 30.0]), ref.generic(len(nm), 3, salt=74), nm, 1),
            "e": (np.array([-5.0, 0.0, 4.0, 10.0]), ref.generic(len(nm), 4, salt=74), nm, 2), "f": (np.array([0.0, 10.0, 30.0]), ref.generic(3, 3, salt=74), nm[:3], 2)}
    out["shevaltemp"] = [lambda s=s, m=m: _pymm.shevaltemp(times, sph, [sets[k] for k in s], 1, 1, mode=m) for s in ("a", "b", "c", "d", "e", "f", "ab", "ba", "ace") for m in (2, 3)]
    ab, ba = ref.generic(len(nm), 3, 2, 2, salt=76), ref.generic(len(nm), 3, 2, 2, salt=77)
    out["sheval2dfs"] = [lambda q=q, m=m: _pymm.sheval2dfs(times, times[::-1], sph, q, 1, 1, mode=m)
                         for q in ((ab, nm, -1, 0, 1.0, 0.25), (ba, nm, -1, 0, 1.0, 0.25), (ab, nm, 0, 0, 1.0, 0.25), (ab, nm, -1, 1, 1.0, 0.25), (ab, nm, -1, 0, 2.0, 0.25), (ab, nm, -1, 0, 1.0, 0.5), (ab[:3], nm[:3], -1, 0, 1.0, 0.25)) for m in (2, 3)]
    out["fourier2d"] = [lambda q=q: _pymm.fourier2d(times, times[::-1], *q)
                        for q in ((ab, -1, 0, 1.0, 2.0), (ba, -1, 0, 1.0, 2.0), (ab, 0, 0, 1.0, 2.0), (ab, -1, -1, 1.0, 2.0), (ab, -1, 0, 0.5, 2.0), (ab, -1, 0, 1.0, 1.0), (ab[0], -1, 0, 1.0, 2.0), (ab.swapaxes(1, 2), -1, 0, 1.0, 2.0))]
    nodes = [np.array([0.0, 10.0, 30.0]), np.array([0.0, 11.0, 30.0]), np.array([0.0, 5.0, 10.0, 17.0, 30.0]), np.array([-5.0, 20.0])]
    out["interp"] = [lambda n=n, k=k, x=x, s=s: _pymm.interp(times, n, ref.generic(2, len(n), salt=s), kind=k, extrapolate=x)
                     for n in nodes for k in (_pymm.INTERP_C0, _pymm.INTERP_C1, _pymm.INTERP_C1D1) for x in (True, False) for s in (78, 79)]
    out["bisect"] = [lambda n=n, s=s, x=x: _pymm.bisect(n, x, s) for n in nodes for s in (_pymm.BISECT_SIDE_LEFT, _pymm.BISECT_SIDE_RIGHT) for x in (times, np.array([4.0, 11.0]), np.array([10.0, 0.0, 31.0]))]
    same = np.array([[10.0, 20.0, 7000.0], [-55.0, 160.0, 6371.2], [10.0, 20.0, 6371.2], [10.0, 20.0, 7000.0]])
    out["convert"] = [lambda k=k, o=o: em.convert(same, k, o) for k in (0, 1, 2) for o in (0, 1, 2) if k != 2 or o != 0] + [lambda: em.convert(sph, 1, 0), lambda: em.convert(sph, 0, 1)]
    out["dipole frame"] = [lambda a=a, b=b, k=k: em.convert_to_dipole(same, a, b, k) for a in (80.0, 70.0, -90.0) for b in (-70.0, 10.0) for k in (0, 1)]
    vec = ref.generic(4, 3, salt=80)
    out["dipole vectors"] = [lambda a=a, b=b, k=k: em.vrot_from_dipole(vec, a, b, lat, lon, -lat, lon / 2, k) for a in (80.0, 70.0) for b in (-70.0, 10.0) for k in (0, 1, 2)]
    pos = np.array([em.convert(sph, 1, k) for k in (0, 1, 2)])
    out["rotations"] = [lambda k=k, o=o, v=v: em.vrotate(v, pos[k], pos[o], k, o) for k in (0, 1, 2) for o in (0, 1, 2) for v in (vec, -vec)]
    out["simple rotations"] = [lambda f=f, a=a, v=v: f(v, a, lon) for f in (em.vrot_sph2cart, em.vrot_cart2sph) for a in (lat, -lat) for v in (vec, -vec)] + [lambda a=a: em.vrot_sph2geod(vec, a) for a in (lat / 100, lat / 50)]
    out["solar position"] = [lambda q=q: em.sunpos(times, *q) for q in ((lat, lon), (lat, lon, 0), (lat, lon, 7000.0), (lat, lon, 6371.2, 60.0), (lat, -lon), (-lat, lon), (lat, lon, rad))]
    out["original solar position"] = [lambda q=q: em.sunpos_original(times + 1000, lat, lon, *q) for q in ((6371.2,), (0,), (6371.2, 60.0), (6371.2, 0, 0.5), (6371.2, 0, 1.0, 0.0))]
    local = [lambda x=x: em.eval_mlt(lon, x) for x in (times, times + 100, times[::-1])] + [lambda x=x: em.eval_mlt(x, times) for x in (-lon, lon[::-1])]
    out["local time"] = local + [lambda x=x: em.eval_subsol(x) for x in (times, times + 100)]
    values = np.array([4.0, 2000.0, 2012.5, 4.0])
    out["times"] = [lambda f=f, x=x: f(x) for f in (em.mjd2000_to_decimal_year, em.mjd2000_to_year_fraction, em.decimal_year_to_mjd2000) for x in (values, values[::-1], values + 1)]
    mut_ = catalog.mut
    out["magnetic time"] = [lambda a=a, b=b: mut_(times, a, b) for a in (80.0, 70.0) for b in (-70.0, 10.0)] + [lambda: mut_(times, 80.0, -70.0, lat_sol=10.0, lon_sol=20.0)]
    for name in catalog.MODELS:
        model = catalog.MODELS[name]
        out[f"model {name}"] = [lambda o=o, k=k, m=model: m.eval(times, sph, 1, k, **o)
                                for o in ({}, {"max_degree": 1}, {"min_degree": 2}, {"scale": 2.0}, {"scale": [1.0, -1.0, 0.5]}) for k in (1, 2)]
    return out


ALONE = {}


def fresh_results(name):
    """ the results of the calls, each made in a process which has made no other of them """
    if name not in ALONE:
        import os
        import pickle
        ALONE[name] = []
        for call in parameter_variants()[name]:
            read_end, write_end = os.pipe()
            pid = os.fork()
            if not pid:
                try:
                    os.close(read_end)
                    with os.fdopen(write_end, "wb") as fout:
                        pickle.dump(as_arrays(call()), fout)
                finally:
                    os._exit(0)
            os.close(write_end)
            with os.fdopen(read_end, "rb") as fin:
                raw = fin.read()
            os.waitpid(pid, 0)
            ALONE[name].append(pickle.loads(raw) if raw else None)
    return ALONE[name]


def as_arrays(result):
    return tuple(np.array(r) for r in result) if isinstance(result, tuple) else (np.array(result),)


def prepare(_tier="quick"):
    for name in parameter_variants():
        fresh_results(name)


def agree_exactly(ctx, got, want, what):
    if not ctx.require(want is not None, f"{what}: the call alone failed"):
        return False
    for k, (a, b) in enumerate(zip(got, want)):
        scale = np.broadcast_to(np.max(np.where(np.isfinite(b), np.abs(b), 0)), b.shape) if b.size else None
        if not ctx.close(a, b, rtol=1e-13, atol=1e-300, scale=scale, what=f"{what} result {k}"):
            return False
    return ctx.require(len(got) == len(want), f"{what}: {len(got)} results")


@group("C04", "pairs of parameters", lambda tier: [[name] for name in parameter_variants()], chunk=1)
def pairs_of_parameters(ctx, case):
    """ every call after every other one with the same arrays and other parameters, as in a fresh process """
    name, = case
    wanted = fresh_results(name)
    calls = parameter_variants()[name]
    depth = 3 if ctx.thorough or len(calls) <= 12 else 2
    for order in itertools.product(range(len(calls)), repeat=depth):
        for place, k in enumerate(order):
            ctx.count(1)
            ctx.transition(1)
            if not agree_exactly(ctx, as_arrays(calls[k]()), wanted[k], f"{name}: call {place} of the sequence {list(order)}"):
                return
    ctx.state(name)
