""" C05 - interpolation of coefficient time series """
import itertools
import datetime
import numpy as np
import eoxmagmod as em
from eoxmagmod import _pymm
from ..core import group
from .. import catalog, ref
from ..ref import LD, GEODETIC, SPHERICAL, CARTESIAN

NAN, INF = float("nan"), float("inf")
GRIDS = {
    "uneven": [-20.0, -7.5, 0.0, 1.0, 10.0, 365.25, 400.0],
    "years": [-36524.0, -1.0, 0.0, 366.0, 366.5, 731.0, 9000.0],
    "tiny": [-1e-9, 0.0, 1e-18, 1e-12, 1e-9, 2e-9, 1.0],
    "huge": [-1e300, -1e10, -1.0, 2.0, 1e6, 1e15, 1e300],
}


def queries(nodes):
    """ every node, its neighbours, the middle of every interval, both outsides """
    out = [-INF, INF, NAN]
    for a in nodes:
        out += [a, np.nextafter(a, -INF), np.nextafter(a, INF)]
    for a, b in zip(nodes, nodes[1:]):
        out += [a / 2 + b / 2, a + (b - a) * 0.2]
    span = (nodes[-1] - nodes[0] if len(nodes) > 1 else 1.0) or 1.0
    if np.isfinite(span) and span < 1e200:
        out += [nodes[0] - span, nodes[-1] + span, nodes[-1] + 3.5 * span]
    return out


def subsets(grid, minimum=0):
    for size in range(minimum, len(grid) + 1):
        yield from itertools.combinations(range(len(grid)), size)


# --- bisection --------------------------------------------------------------------

def bisect_cases(tier):
    for name, grid in GRIDS.items():
        for idx in subsets(grid):
            yield [name, list(idx)]


@group("C05", "bisection", bisect_cases, chunk=16)
def bisection(ctx, case):
    nodes = [GRIDS[case[0]][i] for i in case[1]]
    for dup in ([], [0], [len(nodes) - 1], list(range(len(nodes)))):
        v = sorted(nodes + [nodes[i] for i in dup]) if nodes else []
        _bisect(ctx, v, queries(v) if v else [0.0, NAN, INF])


def _bisect(ctx, nodes, x):
    x = np.array(x)
    left = _pymm.bisect(np.array(nodes), x, side=_pymm.BISECT_SIDE_LEFT)
    right = _pymm.bisect(np.array(nodes), x, side=_pymm.BISECT_SIDE_RIGHT)
    ctx.count(2 * len(x))
    good = ~np.isnan(x)
    # v[i] < x <= v[i+1] and v[i] <= x < v[i+1]
    exp_left = [sum(1 for n in nodes if n < q) - 1 for q in x]
    exp_right = [sum(1 for n in nodes if n <= q) - 1 for q in x]
    ctx.same(left[good], np.array(exp_left)[good], f"bisect left {nodes}")
    ctx.same(right[good], np.array(exp_right)[good], f"bisect right {nodes}")
    for q, a, b in zip(x, left, right):
        ctx.require(int(_pymm.bisect(nodes, q, side=_pymm.BISECT_SIDE_LEFT)) == a, "bisect left of a single value")
        ctx.require(int(_pymm.bisect(nodes, q, side=_pymm.BISECT_SIDE_RIGHT)) == b, "bisect right of a single value")
        ctx.require(int(_pymm.bisect(nodes, q)) == a, "default side")


def size_cases(tier):
    return [[n] for n in range(1, 70 if tier == "quick" else 600)]


@group("C05", "bisection of longer series", size_cases, chunk=4)
def long_bisection(ctx, case):
    nodes = np.arange(case[0]) ** 2 * 0.5
    x = np.concatenate([nodes, nodes - 0.1, nodes + 0.1, [-5.0, 1e9, INF, -INF]])
    ctx.same(_pymm.bisect(nodes, x, side=_pymm.BISECT_SIDE_LEFT), (nodes[None, :] < x[:, None]).sum(-1) - 1, "left")
    ctx.same(_pymm.bisect(nodes, x, side=_pymm.BISECT_SIDE_RIGHT), (nodes[None, :] <= x[:, None]).sum(-1) - 1, "right")
    ctx.count(2 * len(x))


# --- interpolation function ---------------------------------------------------------

def reference(t, nodes, values, kind, extrapolate):
    """ values[..., N] at one time, with its rounding scale """
    n = len(nodes)
    shape = values.shape[:-1]
    # the last value of a piecewise constant series holds for ever
    if not extrapolate and not (nodes[0] <= t if kind == "C0" else nodes[0] <= t <= nodes[-1]):
        return np.full(shape, NAN), 1.0
    if kind == "C0":
        if np.isnan(t):
            return values[..., 0], 0.0
        i = max(0, sum(1 for v in nodes if v <= t) - 1)
        return values[..., i], 0.0
    i = min(max(0, sum(1 for v in nodes if v <= t) - 1), n - 2)
    a, b = LD(nodes[i]), LD(nodes[i + 1])
    va, vb = values[..., i].astype(LD), values[..., i + 1].astype(LD)
    big = np.maximum(np.abs(va), np.abs(vb))
    if a == b and not np.isnan(t):
        return (0 * vb if kind == "C1D1" else vb), 1.0
    if kind == "C1D1":
        if np.isnan(t):
            return None, 1.0
        return (vb - va) / (b - a), big / (b - a)
    with np.errstate(all="ignore"):
        return va + (vb - va) * ((LD(t) - a) / (b - a)), big * (1 + 2 * np.abs((LD(t) - a) / (b - a)))


def interp_cases(tier):
    for name, grid in GRIDS.items():
        for idx in subsets(grid, 1):
            for shape in ((), (2,), (2, 3)) if tier == "thorough" or len(idx) in (1, 2, 4) else ((2,),):
                yield [name, list(idx), list(shape)]


@group("C05", "interpolation", interp_cases, chunk=16)
def interpolation(ctx, case):
    name, idx, shape = case
    nodes = [GRIDS[name][i] for i in idx]
    n = len(nodes)
    values = ref.generic(*shape, n, salt=101) * 50
    q = queries(nodes)
    for kind in ("C0", "C1", "C1D1"):
        code = getattr(_pymm, "INTERP_" + kind)
        if n == 1 and kind != "C0":
            ctx.raises(lambda: _pymm.interp(0.0, nodes, values, code), f"{kind} of a single node", (ValueError,))
            continue
        for extrapolate in (False, True):
            got = _pymm.interp(np.array(q), nodes, values, kind=code, extrapolate=extrapolate)
            ctx.count(len(q))
            if not ctx.require(got.shape == (len(q), *shape), f"result shape {got.shape}"):
                return
            for t, g in zip(q, got):
                if extrapolate and not np.isfinite(t) and kind != "C0":
                    continue        # no meaningful value
                exp, scale = reference(t, nodes, values, kind, extrapolate)
                if not ctx.close(g, np.asarray(exp, float), rtol=0, atol=1e-14 * np.max(scale),
                                 what=f"{kind} extrapolate={extrapolate} at {t!r} of {nodes}"):
                    return
                one = _pymm.interp(t, nodes, values, kind=code, extrapolate=extrapolate)
                if not ctx.same(one, g, f"{kind} single time {t!r}"):
                    return
    if n > 1:
        ctx.same(_pymm.interp(np.array(q), nodes, values), _pymm.interp(np.array(q), nodes, values, _pymm.INTERP_C1, False), "defaults")


@group("C05", "discontinuities", lambda tier: [[name, list(idx), dup] for name in GRIDS for idx in subsets(GRIDS[name], 1)
                                               for dup in range(len(idx))], chunk=16)
def discontinuities(ctx, case):
    """ two snapshots of the same time: the earlier one ends, the later starts
    an interval, at the ends of the series the last of them is held """
    name, idx, dup = case
    nodes = [GRIDS[name][i] for i in idx]
    nodes.insert(dup, nodes[dup])
    values = ref.generic(2, len(nodes), salt=104) * 50
    q = [t for t in queries(nodes) if np.isfinite(t)]
    for kind in ("C0", "C1", "C1D1"):
        for extrapolate in (False, True):
            got = _pymm.interp(np.array(q), nodes, values, getattr(_pymm, "INTERP_" + kind), extrapolate)
            ctx.count(len(q))
            for t, g in zip(q, got):
                exp, scale = reference(t, nodes, values, kind, extrapolate)
                if not ctx.close(g, np.asarray(exp, float), rtol=0, atol=1e-14 * np.max(scale), what=f"{kind} at {t!r} of {nodes}"):
                    return


@group("C05", "undefined snapshots", lambda tier: [[k, pos] for k in ("C0", "C1", "C1D1") for pos in range(4)], chunk=2)
def nan_snapshots(ctx, case):
    """ an undefined snapshot affects its own interval(s) only """
    kind, pos = case
    nodes = GRIDS["uneven"][1:5]
    values = ref.generic(4, salt=102) * 5
    hole = values.copy()
    hole[pos] = NAN
    for t in queries(nodes):
        if not np.isfinite(t):
            continue
        for extra in (False, True):
            a = _pymm.interp(t, nodes, values, getattr(_pymm, "INTERP_" + kind), extra)
            b = _pymm.interp(t, nodes, hole, getattr(_pymm, "INTERP_" + kind), extra)
            i = sum(1 for v in nodes if v <= t) - 1
            i = min(max(i, 0), 3 if kind == "C0" else 2)
            used = [i] if kind == "C0" else [i, i + 1]
            ctx.count(2)
            ctx.same(b, a if pos not in used else NAN, f"{kind} snapshot {pos} undefined, time {t!r}")


# --- coefficient objects --------------------------------------------------------------

def mjd_of_year(year):
    base = datetime.date(int(np.floor(year)), 1, 1).toordinal()
    length = datetime.date(int(np.floor(year)) + 1, 1, 1).toordinal() - base
    return base - datetime.date(2000, 1, 1).toordinal() + (LD(year) - int(np.floor(year))) * length


def year_of_mjd(mjd):
    if not np.isfinite(mjd):
        return mjd
    day = datetime.date.fromordinal(int(np.floor(mjd)) + datetime.date(2000, 1, 1).toordinal())
    start = datetime.date(day.year, 1, 1).toordinal() - datetime.date(2000, 1, 1).toordinal()
    length = datetime.date(day.year + 1, 1, 1).toordinal() - datetime.date(day.year, 1, 1).toordinal()
    return day.year + (LD(mjd) - start) / length


def class_cases(tier):
    for size in range(1, 5 if tier == "quick" else 6):
        for perm in itertools.permutations(range(size)):
            for order in (1, 2):
                for cls in ("Linear", "LinearDY", "custom"):
                    yield [list(perm), order, cls]


NODES = {"Linear": [-400.0, -3.0, 0.0, 366.0, 500.25], "LinearDY": [1998.0, 1999.75, 2000.0, 2001.0, 2001.3],
         "custom": [-40.0, -3.0, 0.0, 36.0, 50.25]}


@group("C05", "coefficient objects", class_cases, chunk=4)
def objects(ctx, case):
    """ snapshots in any listed order; time in the set's own domain """
    perm, order, cls = case
    nodes = NODES[cls][:len(perm)]
    degree = 2
    nm = catalog.nm_full(degree)
    nm = nm[[3, 0, 6, 1, 2, 5]]         # sparse, unsorted terms
    values = ref.generic(len(nm), len(nodes), salt=103) * 70
    args = (nm, values[:, perm], np.array(nodes)[perm])
    if cls == "Linear":
        build = lambda **kw: catalog.Linear(*args, spline_order=order, **kw)
        domain, to_mjd = lambda t: LD(t), lambda v: v
    elif cls == "LinearDY":
        build = lambda **kw: catalog.LinearDY(*args, spline_order=order, **kw)
        domain, to_mjd = year_of_mjd, lambda v: float(mjd_of_year(v))
    else:   # a user defined time domain
        build = lambda **kw: catalog.LinearDY(*args, spline_order=order, to_mjd2000=lambda v: np.asarray(v) * 10 + 5,
                                              to_decimal_year=lambda v: (np.asarray(v) - 5) / 10, **kw)
        domain, to_mjd = lambda t: (LD(t) - 5) / 10, lambda v: v * 10 + 5
    limits = {} if cls != "Linear" else {"validity_start": -1e5, "validity_end": 1e5}
    if len(nodes) == 1 and order == 2:
        limits = {}
    coefs = build(**limits)
    ctx.require(coefs.degree == degree and coefs.min_degree == 1, "degrees")
    if not limits:
        ctx.close(np.array(coefs.validity, float), np.array([to_mjd(nodes[0]), to_mjd(nodes[-1])]), rtol=1e-15, atol=1e-9, what="validity")
    times = []
    for q in queries(nodes):
        if np.isfinite(q):
            if cls == "LinearDY" and not 1990 < q < 2010:
                continue
            times.append(to_mjd(q))
    times = [t for t in times if np.isfinite(t)]
    if len(nodes) == 1 and order == 2:
        ctx.raises(lambda: coefs(np.array(times)), "linear interpolation of one snapshot", (ValueError,))
        return
    kind = "C0" if order == 1 else "C1"
    slack = {"Linear": 0, "LinearDY": 4e-13, "custom": 1e-14}[cls]   # rounding of the time conversion
    span = min(np.diff(nodes)) if len(nodes) > 1 else 1.0
    expected, check, tols = [], [], []
    for t in times:
        x = domain(t)
        near = min(abs(float(x - v)) for v in nodes)
        # a step may be reached one rounding error early or late
        if kind == "C0" and 0 < near <= slack * 2000:
            check.append(False)
            expected.append(np.zeros(len(nm)))
            tols.append(0)
            continue
        exp, scale = reference(x, [LD(v) for v in nodes], values, kind, True)
        check.append(True)
        expected.append(np.asarray(exp, float))
        tols.append(np.max(scale) * 1e-14 + 200 * slack * 2000 / span)
    full = np.zeros((len(times), 6, 2))
    for k, (n, m) in enumerate(nm):
        full[:, n * (n + 1) // 2 + abs(m), int(m < 0)] = np.array(expected)[:, k]
    got, deg = coefs(np.array(times))
    ctx.require(deg == degree, "degree of the coefficients")
    if not ctx.require(got.shape == full.shape, f"shape {got.shape}"):
        return
    model = catalog.SHModel(coefs)
    raw = coefs.get_coefficient_sets()
    ctx.require(len(raw) == 1, "one coefficient set")
    loc = np.array(catalog.LOC_SPH[3])
    for k, t in enumerate(times):
        if not check[k]:
            continue
        if not ctx.close(got[k], full[k], rtol=0, atol=tols[k], what=f"coefficients at {t!r} (node order {perm})"):
            return
        ctx.same(coefs(t)[0], got[k], f"coefficients of a single time {t!r}")
        # the field evaluated directly is the field of those coefficients
        fld = -ref.sh_eval(*loc, full[k])[1]
        start, end = coefs.validity
        value = model.eval(t, loc)
        if start <= t <= end:
            ctx.close(value, np.asarray(fld, float), rtol=1e-10, atol=10 * tols[k] + 1e-9, what=f"field at {t!r}")
        else:
            ctx.require(np.all(np.isnan(value)), f"field outside of the validity at {t!r}")
        split = em.sheval(loc, got[k], SPHERICAL, SPHERICAL, mode=2, scale_gradient=-1.0)
        if start <= t <= end:
            ctx.close(value, split, rtol=1e-12, atol=1e-11 * np.abs(values).max(), what=f"field of the coefficients at {t!r}")
        ctx.count(3)


# --- lengths of the series --------------------------------------------------------------

def long_cases(tier):
    sizes = [*range(1, 70), 100, 127, 128, 129, 255, 256, 257, 400] + ([512, 513, 1000, 1023, 1024, 1025, 4097] if tier == "thorough" else [1025])
    return [[n, o] for n in sizes for o in (1, 2) if n >= o]


@group("C05", "lengths of the series", long_cases, chunk=2)
def long_series(ctx, case):
    """ no number of snapshots is special """
    size, order = case
    k = np.arange(size)
    nodes = -100.0 + 3.0 * k + (k * k * 7 % 11) * 0.25      # uneven
    nm = catalog.nm_full(2)[:5]
    values = ref.generic(len(nm), size, salt=120) * 50
    middle = nodes[:-1] + np.diff(nodes) * 0.375
    times = np.concatenate([nodes, middle, np.nextafter(nodes, -INF), [nodes[0] - 2.5, nodes[-1] + 2.5]])
    if size > 400:
        times = times[::7]
    kind = "C0" if order == 1 else "C1"
    exact = np.array([np.asarray(reference(t, nodes, values, kind, True)[0], float) for t in times])
    size_ = np.abs(values).max() * 10
    coefs = catalog.Linear(nm, values, nodes, spline_order=order, validity_start=-INF, validity_end=INF)
    loc = np.array(catalog.LOC_SPH[3])
    deg = np.zeros((len(times), 6, 2))
    for j, (n, m) in enumerate(nm):
        deg[:, n * (n + 1) // 2 + abs(m), int(m < 0)] = exact[:, j]
    field = em.sheval(loc, deg, SPHERICAL, SPHERICAL, mode=2, scale_gradient=-1.0)
    model = catalog.SHModel(coefs)
    for name, sel in (("ascending", np.argsort(times, kind="stable")), ("descending", np.argsort(-times, kind="stable")),
                      ("scattered", np.argsort(np.arange(len(times)) * 37 % 101, kind="stable"))):
        t = times[sel]
        ctx.count(3 * len(t))
        if not (ctx.close(_pymm.interp(t, nodes, values, getattr(_pymm, "INTERP_" + kind), True), exact[sel], rtol=0, atol=1e-12 * size_, what=f"{size} nodes, {name} times: interpolation")
                and ctx.close(coefs(t)[0], deg[sel], rtol=0, atol=1e-12 * size_, what=f"{size} snapshots, {name} times: coefficients")
                and ctx.close(model.eval(t, loc), field[sel], rtol=0, atol=1e-9 * size_, what=f"{size} snapshots, {name} times: field")):
            return
    ctx.state(size, order)


# --- the fused evaluation: all query histories over several series ------------------------

SERIES = [
    ([0.0, 10.0, 30.0], 2), ([0.0, 10.0, 30.0], 1), ([5.0, 6.0], 2), ([4.0], 1), ([-20.0, -1.0, 4.0, 12.0, 29.0, 31.0], 2),
    ([10.0], 2), ([], 1),
]
TIMES = [-30.0, 0.0, 5.0, 10.0, 17.0, 30.0, 44.0, NAN, np.nextafter(10.0, 0), 4.0, np.nextafter(30.0, 0), np.nextafter(0.0, -1)]


def fused_cases(tier):
    count = 5
    for size in (1, 2, 3):
        for chosen in itertools.permutations(range(count), size):
            if size == 3 and tier == "quick" and sum(chosen) % 3:
                continue
            for shared in (False, True):
                yield [list(chosen), shared]


@group("C05", "fused evaluation histories", fused_cases, chunk=2)
def fused(ctx, case):
    """ every sequence of two (three) times through the loop that remembers
    the previous time; sets sharing or not sharing the nodes array """
    chosen, shared = case
    nm = catalog.nm_full(2).astype("i4")
    parts = [nm, nm[2:5], nm[[7, 0, 3]]]
    sets, series = [], []
    cache = {}
    for k, c in enumerate(chosen):
        nodes, order = SERIES[c]
        key = tuple(nodes)
        arr = cache.setdefault(key, np.array(nodes)) if shared else np.array(nodes)
        part = parts[k % 3]
        values = ref.generic(len(part), len(nodes), salt=110 + k) * 30
        sets.append((arr, values, part, order))
        series.append((nodes, values, part, order))
    loc = np.array(catalog.LOC_SPH[2])

    def expected(t):
        coef = np.zeros((6, 2))
        for nodes, values, part, order in series:
            val, _ = reference(t, nodes, values, "C0" if order == 1 else "C1", True)
            for (n, m), v in zip(part, np.asarray(val, float)):
                coef[n * (n + 1) // 2 + abs(m), int(m < 0)] += v
        return coef

    fields = {}
    for k, t in enumerate(TIMES):
        pot, grad = ref.sh_eval(*loc, expected(t))
        fields[k] = np.append(np.asarray(grad, float), float(pot))
    depth = 3 if ctx.thorough or len(chosen) < 3 else 2
    for idx in itertools.product(range(len(TIMES)), repeat=depth):
        t = np.array([TIMES[i] for i in idx])
        pot, grad = _pymm.shevaltemp(t, np.tile(loc, (depth, 1)), sets, SPHERICAL, SPHERICAL, mode=3)
        exp = np.array([fields[i] for i in idx])
        bad = np.isnan(t) if any(s[3] == 2 for s in series) else np.zeros(depth, bool)
        exp[bad] = NAN
        if not any(s[3] == 2 for s in series):
            # an undefined time leaves piecewise constant series undetermined
            keep = ~np.isnan(t)
            pot, grad, exp = pot[keep], grad[keep], exp[keep]
        # the other ways of evaluation have loops of their own
        single = _pymm.shevaltemp(t, loc, sets, SPHERICAL, SPHERICAL, mode=1)
        slope = _pymm.shevaltemp(t, loc, sets, SPHERICAL, SPHERICAL, mode=2)
        if len(exp) != depth:
            single, slope = single[keep], slope[keep]
        ctx.count(3)
        ctx.transition(3 * depth)
        if not (ctx.close(slope, grad, rtol=1e-13, atol=1e-10, what=f"gradient alone, times {t.tolist()}")
                and ctx.close(single, pot, rtol=1e-13, atol=1e-7, what=f"potential alone, times {t.tolist()}")):
            return
        if not ctx.close(grad, exp[:, :3], rtol=1e-11, atol=1e-9, what=f"gradient, times {t.tolist()}"):
            return
        if not ctx.close(pot, exp[:, 3], rtol=1e-11, atol=1e-6, what=f"potential, times {t.tolist()}"):
            return
    ctx.state(*chosen, shared)


def refuse_cases(tier):
    return [["linear one node"], ["no nodes order 1"], ["no nodes order 2"], ["order 0"], ["order 3"], ["class order 0"], ["class order 3"],
            ["times rank"], ["times number"], ["terms number"], ["coefficients rank"], ["indices columns"]]


@group("C05", "contradicting series", refuse_cases, chunk=4)
def refused(ctx, case):
    nm = catalog.nm_full(1).astype("i4")
    gh = ref.generic(3, 2, salt=120)
    x = np.array(catalog.LOC_SPH[0])
    ev = lambda t, c, n, o: _pymm.shevaltemp(0.0, x, [(t, c, n, o)], 1, 1)
    acts = {
        "linear one node": lambda: ev([1.0], gh[:, :1], nm, 2),
        "no nodes order 1": lambda: ev([], gh[:, :0], nm, 1),
        "no nodes order 2": lambda: ev([], gh[:, :0], nm, 2),
        "order 0": lambda: ev([1.0, 2.0], gh, nm, 0),
        "order 3": lambda: ev([1.0, 2.0], gh, nm, 3),
        "class order 0": lambda: catalog.Linear(nm, gh, [1.0, 2.0], spline_order=0),
        "class order 3": lambda: catalog.Linear(nm, gh, [1.0, 2.0], spline_order=3),
        "times rank": lambda: catalog.Linear(nm, gh, [[1.0, 2.0]]),
        "times number": lambda: catalog.Linear(nm, gh, [1.0, 2.0, 3.0]),
        "terms number": lambda: catalog.Linear(nm[:2], gh, [1.0, 2.0]),
        "coefficients rank": lambda: catalog.Linear(nm, gh[:, 0], [1.0, 2.0]),
        "indices columns": lambda: catalog.Linear(nm[:, :1], gh, [1.0, 2.0]),
    }
    ctx.raises(acts[case[0]], case[0], (ValueError, TypeError, IndexError))


SHAPES = [s for n in range(4) for s in itertools.product((0, 1, 2, 3), repeat=n)]
KINDS_OF_SERIES = {
    "linear": (catalog.Linear, {}), "step": (catalog.Linear, {"spline_order": 1}),
    "year": (catalog.LinearDY, {}), "constant": (catalog.Constant, None),
}


def table_of(shape):
    """ an integer array of the given shape listing terms of the first degree """
    out = np.ones(shape, int)
    if shape and shape[-1] >= 2:
        rows = out.reshape(-1, shape[-1])
        for k in range(len(rows)):
            rows[k, :2] = [(1, 0), (1, 1), (1, -1)][k % 3]
    return out


@group("C05", "shapes of the arrays", lambda tier: [[k, list(i)] for k in KINDS_OF_SERIES for i in SHAPES], chunk=20)
def shapes(ctx, case):
    """ the arrays of a series fit together or the series is refused """
    kind, nm_shape = case
    nm_shape = tuple(nm_shape)
    make, options = KINDS_OF_SERIES[kind]
    nm = table_of(nm_shape)
    good_nm = len(nm_shape) == 2 and nm_shape[1] == 2 and nm_shape[0] > 0
    # an array of no terms may be refused or not
    if nm.size == 0:
        return
    for gh_shape in SHAPES:
        gh = 1.0 + np.arange(np.prod(gh_shape, dtype=int)).reshape(gh_shape)
        if options is None:
            args = [(nm, gh)]
            good = [good_nm and gh_shape == nm_shape[:1]]
        else:
            args, good = [], []
            for t_shape in SHAPES:
                if 0 in t_shape:
                    continue
                args.append((nm, gh, 2000.0 + np.arange(np.prod(t_shape, dtype=int)).reshape(t_shape)))
                good.append(good_nm and len(t_shape) == 1 and gh_shape == (nm_shape[0], t_shape[0]))
        ctx.count(len(args))
        for arg, fits in zip(args, good):
            what = f"{kind} series of indices {nm_shape}, coefficients {gh_shape}" + (f", times {arg[2].shape}" if len(arg) > 2 else "")
            if fits and kind in ("linear", "year") and len(arg[2]) < 2:
                continue # a slope needs two snapshots
            if fits:
                coefs = make(*arg, **(options or {}))
                got = coefs(0.0 if kind != "year" else 366.0)[0]
                want = np.zeros((3, 2))
                for (n, m), v in zip(nm, gh.reshape(len(nm), -1)[:, 0]):
                    want[n * (n + 1) // 2 + abs(m), int(m < 0)] = v
                if kind in ("constant", "step"):
                    ctx.same(got, want, what)
                ctx.require(got.shape == (3, 2), f"{what}: coefficients of the shape {got.shape}")
            else:
                ctx.raises(lambda: make(*arg, **(options or {})), what, (ValueError, TypeError, IndexError))


BASE_NM = [(1, 0), (1, 1), (1, -1), (2, -1), (2, 2)]


def wrong_terms(base=BASE_NM):
    """ every list of terms that repeats a term or holds a term that does not exist """
    for k in range(len(base)):
        for at in sorted({0, k, k + 1, len(base)}):
            yield [list(r) for r in base[:at]] + [list(base[k])] + [list(r) for r in base[at:]]
    for k, (n, m) in enumerate(base):
        for term in ((n, n + 1), (n, -n - 1), (0, 1), (0, -1), (-1, 0), (-1, 1), (-n, m), (n, 40), (n, -40)):
            yield [list(r) for r in base[:k]] + [list(term)] + [list(r) for r in base[k + 1:]]


@group("C05", "wrong terms", lambda tier: [[c, t, e] for c in ("constant", "linear", "step", "year", "mio") for t in wrong_terms() for e in (0, 1)], chunk=40)
def wrong(ctx, case):
    kind, terms, equal = case
    nm = np.array(terms)
    gh = ref.generic(len(nm), 2, salt=121)
    if equal:
        gh[:] = gh[:1]
    make = {
        "constant": lambda: catalog.Constant(nm, gh[:, 0]),
        "linear": lambda: catalog.Linear(nm, gh, [1.0, 2.0]),
        "step": lambda: catalog.Linear(nm, gh, [1.0, 2.0], spline_order=1),
        "year": lambda: catalog.LinearDY(nm, gh, [2001.0, 2002.0]),
        "mio": lambda: catalog.MIO(nm, gh.reshape(len(nm), 1, 1, 2), (0, 0, 0, 0), is_internal=True),
    }[kind]
    ctx.raises(make, f"{kind} coefficients of the terms {terms}", (ValueError, IndexError))


# --- the order of the listed terms does not matter ------------------------------------------------

TERMS = [(1, 0), (1, -1), (2, 1), (3, -2), (3, 3)]


def permuted_cases(tier):
    for order in itertools.permutations(range(5)):
        yield [list(order)]
    for count in (1, 2, 3, 4):
        for order in itertools.permutations(range(5), count):
            yield [list(order)]


@group("C05", "orders of the terms", permuted_cases, chunk=20)
def permuted(ctx, case):
    chosen = case[0]
    nm = np.array([TERMS[k] for k in chosen], "i4")
    nodes = [0.0, 10.0, 30.0]
    values = (ref.generic(5, 3, salt=122) * 30)[chosen]
    degree = max(n for n, _ in nm)
    loc = np.array(catalog.LOC_SPH[2])
    years = [2000.0, 2000.0 + 10 / 366.0, 2000.0 + 30 / 366.0]
    make = [
        ("linear", lambda: catalog.Linear(nm, values, nodes), "C1"),
        ("step", lambda: catalog.Linear(nm, values, nodes, spline_order=1), "C0"),
        ("year", lambda: catalog.LinearDY(nm, values, years), "C1"),
        ("constant", lambda: catalog.Constant(nm, values[:, 0]), None),
        ("combined", lambda: catalog.Combined(catalog.Linear(nm, values, nodes), catalog.Linear(nm[::-1], -2 * values[::-1], nodes)), "twice"),
    ]
    for t in (0.0, 4.0, 17.0):
        tables = {}
        for kind in ("C0", "C1"):
            val, _ = reference(t, nodes, values, kind, True)
            tables[kind] = np.zeros((10, 2))
            for (n, m), v in zip(nm, np.asarray(val, float)):
                tables[kind][n * (n + 1) // 2 + abs(m), int(m < 0)] = v
        tables[None] = np.zeros((10, 2))
        for (n, m), v in zip(nm, values[:, 0]):
            tables[None][n * (n + 1) // 2 + abs(m), int(m < 0)] = v
        tables["twice"] = -tables["C1"]
        for name, func, kind in make:
            coefs = func()
            got, deg = coefs(t)
            ctx.count(2)
            ctx.transition(1)
            if not (ctx.require(int(coefs.degree) == degree and int(deg) == degree, f"{name}: degree {coefs.degree}, {deg}")
                    and ctx.close(catalog.padded(got, 10), tables[kind], rtol=0, atol=1e-9 if name != "year" else 1e-5, what=f"{name}: coefficients at {t}")):
                return
            _, grad = ref.sh_eval(*loc, tables[kind])
            if not ctx.close(catalog.SHModel(coefs).eval(t, loc), -np.asarray(grad, float), rtol=1e-11, atol=1e-9 if name != "year" else 1e-5, what=f"{name}: field at {t}"):
                return
        for order, kind in ((2, "C1"), (1, "C0")):
            sets = [(np.array(nodes), values, nm, order)]
            pot, grad = ref.sh_eval(*loc, tables[kind])
            for mode, exact in ((1, [float(pot)]), (2, np.asarray(grad, float))):
                got = _pymm.shevaltemp(t, loc, sets, SPHERICAL, SPHERICAL, mode=mode)
                ctx.count(1)
                if not ctx.close(np.ravel(got), exact, rtol=1e-11, atol=1e-7, what=f"fused evaluation of order {order}, mode {mode} at {t}"):
                    return
