""" C07 - composed models are the scaled sum of their components

Explicit-state exploration of the component list: every sequence of additions
up to the depth; in every reached state the composed model is evaluated in all
frames and option sets and compared with the sum of its components. """
import copy
import itertools
import numpy as np
import eoxmagmod as em
from ..core import group
from .. import catalog
from ..ref import SPHERICAL
from .c04 import snapshot

NAN, INF = float("nan"), float("inf")


def bounded(low, high, salt):
    return catalog.SHModel(catalog.constant(salt=salt, degree=3, validity_start=low, validity_end=high))


def inner():
    model = em.ComposedGeomagneticModel(catalog.MODELS["constant"])
    model.push(catalog.MODELS["linear"], scale=-3.0, max_degree=1)
    return model


MODELS = {
    "constant": catalog.MODELS["constant"], "linear": catalog.MODELS["linear"], "external": catalog.MODELS["constant external"],
    "dipole": catalog.MODELS["dipole"], "mio": catalog.MODELS["mio primary"], "composed": catalog.MODELS["composed"],
    "bounded": bounded(5.0, 25.0, 301), "late": bounded(27.0, 40.0, 302), "touching": bounded(25.0, 27.0, 303), "inner": inner(),
    "empty": em.ComposedGeomagneticModel(),
}
PUSHES = [
    ("constant", {}), ("linear", {"scale": -2.0}), ("linear", {"max_degree": 1}), ("external", {"scale": 0.5}),
    ("dipole", {"min_degree": 2, "scale": 3.0}), ("mio", {}), ("mio", {"f107": 50.0, "scale": 2.0}), ("inner", {}), ("inner", {"scale": -1.5}),
    ("bounded", {"min_degree": 1, "max_degree": 2}), ("late", {}), ("bounded", {"scale": 0.0}),
    ("composed", {"scale": 1e6}), ("empty", {}), ("touching", {"scale": 2}),
    ("inner", {"min_degree": 1, "max_degree": 1, "scale": 4.0}),
]
OPTIONS = [{}, {"scale": 3.0}, {"max_degree": 1}, {"scale": -0.25, "min_degree": 2, "max_degree": 2}, {"f107": 120.0, "lat_sol": 15.0, "lon_sol": -40.0},
           {"scale": "vector", "max_degree": 2}]
FRAMES = list(itertools.product((0, 1, 2), repeat=2))
INPUTS = {
    "single": (12.0, 0),
    "array": ([12.0, NAN, 3.0, 26.0, -5.0, 25.0], None),
    "one place": ([12.0, 26.0, 30.5], 2),
    "one time": (6.0, None),
}


def arguments(name, kin):
    t, where = INPUTS[name]
    loc = np.array(catalog.locations(kin, bad=False)[2:8])
    loc = loc[where] if where is not None else loc
    return np.array(t), loc


def call_options(number):
    out = dict(OPTIONS[number])
    if isinstance(out.get("scale"), str):
        out["scale"] = np.array([1.0, -2.0, 0.5])
    return out


CACHE = {}


def component(push, frame, opt, inp):
    """ the component's own evaluation, with its own scale and options """
    key = (push, frame, opt, inp)
    if key not in CACHE:
        name, own = PUSHES[push]
        merged = call_options(opt)
        merged.pop("scale", None)
        merged.update(own)
        scale = merged.pop("scale", 1.0)
        kin, kout = FRAMES[frame]
        t, x = arguments(inp, kin)
        CACHE[key] = MODELS[name].eval(t, x, kin, kout, **merged) * scale
    return CACHE[key]


def expected_validity(seq):
    low, high = -INF, INF
    for p in seq:
        a, b = MODELS[PUSHES[p][0]].validity
        low, high = max(low, a), min(high, b)
    return (low, high) if low <= high else (-INF, -INF)


def push_all(seq, light=None):
    model = em.ComposedGeomagneticModel()
    for p in seq:
        name, own = PUSHES[p]
        model.push(MODELS[name], **copy.deepcopy(own))
        if light:
            light(model)
    return model


def sequences(tier):
    yield []
    for size in (1, 2, 3):
        yield from (list(s) for s in itertools.product(range(len(PUSHES)), repeat=size))
    if tier == "thorough":
        yield from (list(s) for s in itertools.product((0, 1, 3, 4, 6, 7, 9, 10), repeat=4))


@group("C07", "sequences of additions", sequences, chunk=16)
def additions(ctx, case):
    seq = tuple(case)
    model = push_all(seq, lambda m: m.eval(np.array([6.0]), np.array([catalog.LOC_SPH[2]]), f107=70.0))
    names = [PUSHES[p][0] for p in seq]
    low, high = expected_validity(seq)
    ctx.require(tuple(model.validity) == (low, high), f"validity {model.validity} instead of {(low, high)} of {names}")
    params = {"time", "location"}.union(*[MODELS[n].parameters for n in names]) if names else {"time", "location"}
    ctx.require(sorted(model.parameters) == sorted(params), f"parameters {model.parameters} of {names}")
    plan = [(f, o, i) for f in range(9) for o in range(len(OPTIONS)) for i in INPUTS]
    if len(seq) > 2:     # every frame, option set and input, not every combination
        plan = [(f, o, i) for f, o, i in plan if (f + 2 * o + list(INPUTS).index(i) + sum(seq)) % (5 if ctx.thorough else 13) == 0]
    for frame, opt, inp in plan:
        kin, kout = FRAMES[frame]
        t, x = arguments(inp, kin)
        keep_t, keep_x = t.copy(), x.copy()
        options = call_options(opt)
        keep_o = copy.deepcopy(options)
        got = model.eval(t, x, kin, kout, **options)
        ctx.count(1)
        if seq:
            parts = [component(p, frame, opt, inp) for p in seq]
            total = sum(parts)
            size = sum(np.abs(p).max(-1, keepdims=True) for p in parts)
        else:
            total = np.zeros(np.shape(x) if x.ndim > t.ndim else t.shape + (3,))
            total[np.isnan(np.broadcast_to(t if t.ndim else t, total.shape[:-1]))] = NAN
            size = np.ones(total.shape[:-1] + (1,))
        scale = keep_o.get("scale", 1.0)
        total = total * scale
        size = np.broadcast_to(size * np.max(np.abs(scale)), total.shape)
        if not ctx.close(got, total, rtol=1e-11, atol=1e-12, scale=np.nan_to_num(size),
                         what=f"{names} in frames {kin}->{kout}, options {keep_o}, {inp}"):
            return
        ctx.require(np.array_equal(t, keep_t, equal_nan=True) and np.array_equal(x, keep_x), "arguments modified")
        ctx.require(set(options) == set(keep_o) and all(np.array_equal(options[k], keep_o[k]) for k in options), "options modified")
    ctx.state(seq)
    ctx.transition(len(plan))


@group("C07", "constructor", lambda tier: [list(s) for size in range(4) for s in itertools.product(("constant", "mio", "inner", "bounded", "empty"), repeat=size)], chunk=16)
def constructor(ctx, case):
    """ models given to the constructor are added with scale 1 """
    model = em.ComposedGeomagneticModel(*[MODELS[n] for n in case])
    x = np.array(catalog.LOC_SPH[:3])
    got = model.eval(np.array([6.0, 12.0, NAN]), x, f107=80.0)
    exp = sum((MODELS[n].eval(np.array([6.0, 12.0, NAN]), x, f107=80.0) for n in case), np.zeros((3, 3)))
    exp[2] = NAN
    ctx.close(got, exp, rtol=1e-12, atol=1e-9, what=f"{case}")


# --- histories of one object -----------------------------------------------------------

HISTORY = (0, 2, 4, 6, 8, 9)


@group("C07", "additions between evaluations", lambda tier: [list(s) for s in itertools.permutations(HISTORY, 3 if tier == "quick" else 4)], chunk=4)
def interleaved(ctx, case):
    """ evaluations with any options between the additions leave no trace """
    seq = tuple(case)
    for opts in itertools.product((0, 2, 4), repeat=len(seq)):
        model = em.ComposedGeomagneticModel()
        for k, (p, opt) in enumerate(zip(seq, opts)):
            name, own = PUSHES[p]
            model.push(MODELS[name], **own)
            t, x = arguments("array", SPHERICAL)
            got = model.eval(t, x, 1, 1, **call_options(opt))
            parts = [component(q, FRAMES.index((1, 1)), opt, "array") for q in seq[:k + 1]]
            ctx.transition(1)
            if not ctx.close(got, sum(parts), rtol=1e-11, atol=1e-12, scale=np.nan_to_num(sum(np.abs(q) for q in parts)),
                             what=f"after additions {seq[:k+1]}, call options {opts[:k+1]}"):
                return
            got[...] = 7.0
    ctx.state(seq)


@group("C07", "objects stay as they were", lambda tier: [[p, q] for p in range(len(PUSHES)) for q in range(len(PUSHES))], chunk=8)
def unchanged(ctx, case):
    """ neither the components nor their option values change """
    before = {n: snapshot(MODELS[PUSHES[n][0]]) for n in case}
    own = [dict(PUSHES[p][1], weights=np.array([1.0, 2.0])) for p in case]
    keep = copy.deepcopy(own)
    model = em.ComposedGeomagneticModel()
    for p, o in zip(case, own):
        model.push(MODELS[PUSHES[p][0]], **o)
    pic = snapshot(model)
    for opt in range(len(OPTIONS)):
        opts = dict(call_options(opt), f107=np.array([70.0, 80.0]), lat_sol=np.array([1.0, 2.0]), lon_sol=np.array([3.0, 4.0]))
        kopts = copy.deepcopy(opts)
        model.eval(np.array([6.0, NAN]), np.array(catalog.LOC_SPH[1:3]), 1, 0, **opts)
        ctx.require(set(opts) == set(kopts) and all(np.array_equal(opts[k], kopts[k]) for k in opts), "call options modified")
        ctx.count(1)
    ctx.require(snapshot(model) == pic, "evaluation changed the composed model")
    for o, k in zip(own, keep):
        ctx.require(set(o) == set(k) and all(np.array_equal(o[x], k[x]) for x in o), "component options modified")
    for n in case:
        ctx.require(snapshot(MODELS[PUSHES[n][0]]) == before[n], f"component {PUSHES[n][0]} changed")
    # an object added twice or to two compositions is independent
    other = em.ComposedGeomagneticModel()
    other.push(MODELS[PUSHES[case[0]][0]], scale=9.0, max_degree=1)
    x = np.array(catalog.LOC_SPH[1:3])
    a = model.eval(np.array([6.0, 12.0]), x)
    other.eval(np.array([6.0, 12.0]), x)
    ctx.same(model.eval(np.array([6.0, 12.0]), x), a, "another composition of the same component")


@group("C07", "components changed later", lambda tier: [list(s) for size in (1, 2, 3) for s in itertools.product(("bounded", "late", "mio", "touching"), repeat=size)], chunk=8)
def later(ctx, case):
    """ additions to a composed model that already is a component """
    child = em.ComposedGeomagneticModel()
    parent = em.ComposedGeomagneticModel(MODELS["linear"], child)
    top = em.ComposedGeomagneticModel(parent)
    low, high = -INF, INF
    names = ["linear"]
    low, high = MODELS["linear"].validity
    for name in case:
        child.push(MODELS[name])
        names.append(name)
        a, b = MODELS[name].validity
        low, high = max(low, a), min(high, b)
        exp = (low, high) if low <= high else (-INF, -INF)
        for obj in (parent, top):
            ctx.require(tuple(obj.validity) == exp, f"validity {obj.validity} instead of {exp} after adding {name}")
            ctx.require(set(obj.parameters) == {"time", "location"}.union(*[MODELS[n].parameters for n in names]), "parameters")
        t, x = arguments("array", SPHERICAL)
        total = sum(MODELS[n].eval(t, x, f107=70.0) for n in names)
        ctx.close(top.eval(t, x, f107=70.0), total, rtol=1e-11, atol=1e-9, what=f"{names}")
        ctx.transition(1)


# --- many components ---------------------------------------------------------------------

@group("C07", "many components", lambda tier: [[n, s] for n in ([*range(4, 34), 40, 64, 65, 100] if tier == "quick" else range(4, 140)) for s in (1, 3, 5)], chunk=4)
def many(ctx, case):
    """ no number of components is special """
    count, stride = case
    usual = [p for p in range(len(PUSHES)) if PUSHES[p][0] not in ("late", "touching") and PUSHES[p][1].get("scale") != 1e6]
    seq = tuple(usual[(k * stride + k // len(usual)) % len(usual)] for k in range(count))
    model = push_all(seq)
    ctx.require(tuple(model.validity) == expected_validity(seq), f"validity {model.validity} of {count} components")
    for frame, opt, inp in ((count % 9, 0, "array"), ((count + 4) % 9, 4, "single"), ((count + stride) % 9, 3, "one time")):
        kin, kout = FRAMES[frame]
        t, x = arguments(inp, kin)
        parts = [component(p, frame, opt, inp) for p in seq]
        scale = call_options(opt).get("scale", 1.0)
        size = np.broadcast_to(sum(np.abs(p).max(-1, keepdims=True) for p in parts), parts[0].shape)
        ctx.count(1)
        if not ctx.close(model.eval(t, x, kin, kout, **call_options(opt)), sum(parts) * scale, rtol=1e-11, atol=1e-12,
                         scale=np.nan_to_num(size), what=f"{count} components {seq} in frames {kin}->{kout}, options {opt}, {inp}"):
            return
    ctx.state(seq)
