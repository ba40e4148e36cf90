""" C06 - composed and combined coefficient sets """
import itertools
import math
import numpy as np
import eoxmagmod as em
from ..core import group
from .. import catalog, ref
from ..ref import SPHERICAL
from .c05 import reference, year_of_mjd

NAN, INF = float("nan"), float("inf")
GRID = [0.0, 366.0, 731.0, 1096.0]          # 2000-01-01 .. 2003-01-01
YEARS = [2000.0, 2001.0, 2002.0, 2003.0]
ENDS = [None, 0, 1, 2, 3, None]
DEGREE = 3
LOC = np.array([33.0, -71.0, 6800.0])
LOC2 = np.array([-64.0, 140.0, 6371.2])


def linear_map(loc, internal=True):
    """ field vector of every unit coefficient, (3, nterms, 2) """
    out = np.zeros((3, ref.nterms(DEGREE), 2))
    for i in range(ref.nterms(DEGREE)):
        for j in range(2):
            unit = np.zeros((ref.nterms(DEGREE), 2))
            unit[i, j] = 1
            out[:, i, j] = -ref.sh_eval(*loc, unit, internal=internal)[1].astype(float)
    return out


MAPS = {}


def map_of(loc, internal):
    key = (tuple(loc), internal)
    if key not in MAPS:
        MAPS[key] = linear_map(loc, internal)
    return MAPS[key]


# --- leaves -------------------------------------------------------------------------
# a leaf is [kind, number, lo, hi] with lo, hi indices of GRID or None (no limit)

NODES_L = [-500.0, 200.0, 366.0, 900.0, 2000.0]
NODES_D = [1999.0, 2000.5, 2001.0, 2004.0]


def leaf_terms(number):
    nm = catalog.nm_full(1 + number % 3)
    return nm[(number % 2):] if number % 5 else nm


def leaf_values(kind, number):
    nm = leaf_terms(number)
    size = {"K": 1, "L": len(NODES_L), "S": len(NODES_L), "D": len(NODES_D)}[kind]
    return ref.generic(len(nm), size, salt=200 + number) * 40


def build_leaf(leaf, internal=True):
    kind, number, low, high = leaf
    nm, values = leaf_terms(number), leaf_values(kind, number)
    scale = YEARS if kind == "D" else GRID
    kw = {"is_internal": internal, "validity_start": -INF if low is None else scale[low],
          "validity_end": INF if high is None else scale[high]}
    if kind == "D":
        # calendar years are finite
        kw["validity_start"] = max(kw["validity_start"], 1990.0)
        kw["validity_end"] = min(kw["validity_end"], 2020.0)
    if kind == "K":
        if low is None:
            kw.pop("validity_start")
        if high is None:
            kw.pop("validity_end")
        return catalog.Constant(nm, values[:, 0], **kw)
    if kind == "D":
        return catalog.LinearDY(nm, values, NODES_D, **kw)
    return catalog.Linear(nm, values, NODES_L, spline_order=1 if kind == "S" else 2, **kw)


def leaf_interval(leaf):
    kind, _, low, high = leaf
    lo = -INF if low is None else GRID[low]
    hi = INF if high is None else GRID[high]
    if kind == "D":
        lo, hi = max(lo, -3652.0), min(hi, 7305.0)
    return lo, hi


COEF_CACHE = {}


def leaf_coef(leaf, t):
    key = (leaf[0], leaf[1], t)
    if key not in COEF_CACHE:
        kind, number = leaf[:2]
        values = leaf_values(kind, number)
        if kind == "K":
            val = values[:, 0]
        elif kind == "D":
            val = reference(year_of_mjd(t), [ref.LD(v) for v in NODES_D], values, "C1", True)[0]
        else:
            val = reference(t, NODES_L, values, "C0" if kind == "S" else "C1", True)[0]
        out = np.zeros((ref.nterms(DEGREE), 2))
        for (n, m), v in zip(leaf_terms(number), np.asarray(val, float)):
            out[n * (n + 1) // 2 + abs(m), int(m < 0)] = v
        COEF_CACHE[key] = out
    return COEF_CACHE[key]


# --- trees: ["C", child, ...] first valid, ["+", child, ...] sum, or a leaf -----------

def is_leaf(tree):
    return tree[0] in "KLSD"


def build(tree, internal=True, made=None):
    """ made: objects of the tree to be used repeatedly """
    if made is not None and repr(tree) in made:
        return made[repr(tree)]
    if is_leaf(tree):
        out = build_leaf(tree, internal)
    else:
        out = (catalog.Composed if tree[0] == "C" else catalog.Combined)(*[build(c, internal, made) for c in tree[1:]])
    if made is not None:
        made[repr(tree)] = out
    return out


def span(tree):
    """ the validity interval of a tree (hull or intersection) """
    if is_leaf(tree):
        return leaf_interval(tree)
    spans = [span(c) for c in tree[1:]]
    if tree[0] == "C":
        return min(s[0] for s in spans), max(s[1] for s in spans)
    return max(s[0] for s in spans), min(s[1] for s in spans)


def gap(tree):
    """ does any composition in the tree leave a gap? """
    if is_leaf(tree):
        return False
    if any(gap(c) for c in tree[1:]):
        return True
    if tree[0] == "C" and len(tree) > 2:
        spans = sorted(span(c) for c in tree[1:])
        reach = spans[0][1]
        for lo, hi in spans[1:]:
            if lo > reach:
                return True
            reach = max(reach, hi)
    return False


def never(tree):
    """ has some part an empty validity? """
    lo, hi = span(tree)
    return lo > hi or (not is_leaf(tree) and any(never(c) for c in tree[1:]))


def coef_at(tree, t):
    """ the model: coefficients at the time, None when not valid """
    lo, hi = span(tree)
    if not lo <= t <= hi:
        return None
    if is_leaf(tree):
        return leaf_coef(tree, t)
    if tree[0] == "C":
        for child in tree[1:]:
            val = coef_at(child, t)
            if val is not None:
                return val
        return None
    return sum(coef_at(c, t) for c in tree[1:])


def leaves(tree):
    return [tree] if is_leaf(tree) else [x for c in tree[1:] for x in leaves(c)]


def times_of(tree, dense=False):
    marks = sorted({v for leaf in leaves(tree) for v in leaf_interval(leaf) if np.isfinite(v) and -1000 < v < 3000})
    if not marks:
        marks = [0.0]
    out = []
    for v in marks:
        out += [v, np.nextafter(v, -INF), np.nextafter(v, INF)]
    out += [a / 2 + b / 2 for a, b in zip(marks, marks[1:])]
    out += [marks[0] - 100.5, marks[-1] + 100.5]
    if dense:
        out += [200.0, 183.0, 900.0, np.nextafter(200.0, 0)]
    return out


def check_tree(ctx, tree, internal=True, dense=False, both=True, shared=False):
    if gap(tree):
        ctx.raises(lambda: build(tree, internal, {} if shared else None), f"time gap in {tree}", (ValueError,))
        ctx.count(1)
        return
    coefs = build(tree, internal, {} if shared else None)
    lo, hi = span(tree)
    ctx.require(tuple(coefs.validity) == (lo, hi), f"validity {coefs.validity} instead of {(lo, hi)}")
    degrees = [leaf_terms(x[1])[:, 0] for x in leaves(tree)]
    ctx.require(coefs.degree == max(d.max() for d in degrees), f"degree {coefs.degree}")
    ctx.require(coefs.min_degree == min(d.min() for d in degrees), f"minimum degree {coefs.min_degree}")
    ctx.require(coefs.is_internal == internal, "is_internal")
    scales = {scale for x in leaves(tree) for scale in build_leaf(x, internal).time_scales}
    ctx.require(set(coefs.time_scales) == scales, f"time scales {coefs.time_scales} instead of {scales}")
    model = catalog.SHModel(coefs)
    ctx.require(tuple(model.validity) == (lo, hi), "model validity")
    times = times_of(tree, dense)
    has_dy = any(x[0] == "D" for x in leaves(tree))
    expected = np.full((len(times), 3), NAN)
    valid = np.zeros(len(times), bool)
    tolerance = 2e-10 if has_dy else 1e-11
    full = []
    for k, t in enumerate(times):
        val = coef_at(tree, t)
        full.append(val)
        if val is not None:
            valid[k] = True
            expected[k] = np.tensordot(map_of(LOC, internal), val, ([1, 2], [0, 1]))
    big = 40.0 * len(leaves(tree)) * 20
    arr = np.array(times + [NAN])
    got = model.eval(arr, LOC)
    ctx.count(len(times) * 2)
    ctx.transition(len(times))
    if not ctx.close(got, np.vstack([expected, [[NAN] * 3]]), rtol=0, atol=tolerance * big, what=f"fields of {tree}"):
        return
    # coefficients and single times agree with the selection
    many, degree = coefs(np.array(times))
    for k, t in enumerate(times):
        one, deg = coefs(t)
        if not ctx.same(model.eval(t, LOC), got[k], f"single time {t!r} of {tree}"):
            return
        if full[k] is not None:
            pad = catalog.padded(one)
            if not ctx.close(pad, full[k], rtol=0, atol=tolerance * big, what=f"coefficients at {t!r} of {tree}"):
                return
        if not ctx.close(catalog.padded(many[k]), catalog.padded(one), rtol=0, atol=0, what=f"array coefficients at {t!r} of {tree}"):
            return
        ctx.require(deg <= coefs.degree and one.shape[-2] == ref.nterms(deg), f"reported degree {deg}")
    if both:
        # a reversed array with one location each: different cached locations
        locs = np.array([LOC if k % 2 else LOC2 for k in range(len(times))])
        order = np.arange(len(times))[::-1]
        exp = np.array([np.tensordot(map_of(loc, internal), f, ([1, 2], [0, 1])) if f is not None else [NAN] * 3
                        for loc, f in zip(locs, full)])
        ctx.close(model.eval(np.array(times)[order], locs[order]), exp[order], rtol=0, atol=tolerance * big, what=f"mixed locations, {tree}")
    ctx.state(repr(tree))


# --- flat sequences -------------------------------------------------------------------

INTERVALS = [(a, b) for a in range(4) for b in range(a, 4)] + [(None, 1), (2, None), (None, None)]
SHORT = [(0, 1), (1, 2), (0, 2), (1, 1), (2, 3), (0, 3), (None, 1), (1, None)]


def flat_cases(tier):
    for size in (1, 2, 3):
        for chosen in itertools.product(range(len(INTERVALS)), repeat=size):
            yield [size, list(chosen)]
    if tier == "thorough":
        for chosen in itertools.product(range(len(INTERVALS)), repeat=4):
            yield [4, list(chosen)]


@group("C06", "sequences of constant sets", flat_cases, chunk=32)
def flat(ctx, case):
    _, chosen = case
    tree = ["C"] + [["K", k, *INTERVALS[i]] for k, i in enumerate(chosen)]
    check_tree(ctx, tree, both=False)


@group("C06", "combinations of constant sets", lambda tier: [c for c in flat_cases("quick") if c[0] < 3 or sum(c[1]) % 3 == 0 or tier == "thorough"], chunk=32)
def combined(ctx, case):
    _, chosen = case
    check_tree(ctx, ["+"] + [["K", k, *INTERVALS[i]] for k, i in enumerate(chosen)], both=False)


# --- nested trees ---------------------------------------------------------------------

FORMS = {
    "C(+ab)c": lambda a, b, c: ["C", ["+", a, b], c],
    "Ca(+bc)": lambda a, b, c: ["C", a, ["+", b, c]],
    "+(Cab)c": lambda a, b, c: ["+", ["C", a, b], c],
    "+a(Cbc)": lambda a, b, c: ["+", a, ["C", b, c]],
    "C(Cab)c": lambda a, b, c: ["C", ["C", a, b], c],
    "+(+ab)c": lambda a, b, c: ["+", ["+", a, b], c],
}
FORMS4 = {
    "C(+ab)(+cd)": lambda a, b, c, d: ["C", ["+", a, b], ["+", c, d]],
    "+(Cab)(Ccd)": lambda a, b, c, d: ["+", ["C", a, b], ["C", c, d]],
    "+(C(+ab)c)d": lambda a, b, c, d: ["+", ["C", ["+", a, b], c], d],
    "C(+(Cab)c)d": lambda a, b, c, d: ["C", ["+", ["C", a, b], c], d],
    "C(C(+ab)c)d": lambda a, b, c, d: ["C", ["C", ["+", a, b], c], d],
    "+a(C(Cbc)d)": lambda a, b, c, d: ["+", a, ["C", ["C", b, c], d]],
}


def nested_cases(tier):
    for form in FORMS:
        for chosen in itertools.product(range(len(SHORT)), repeat=3):
            yield [form, list(chosen)]
    few = (0, 1, 2, 4, 6) if tier == "quick" else range(len(SHORT))
    for form in FORMS4:
        for chosen in itertools.product(few, repeat=4):
            yield [form, list(chosen)]


@group("C06", "nested trees", nested_cases, chunk=32)
def nested(ctx, case):
    form, chosen = case
    make = FORMS.get(form) or FORMS4[form]
    kinds = "KLK" "L"
    tree = make(*[[kinds[k % 4], k, *SHORT[i]] for k, i in enumerate(chosen)])
    if any(never(c) for c in tree[1:] if not is_leaf(c)) and "C" in form:
        return      # a part that never applies
    check_tree(ctx, tree, both=sum(chosen) % 4 == 0)


# --- kinds of sets ---------------------------------------------------------------------

KIND_TREES = {
    "leaf": (1, lambda a: a),
    "C": (2, lambda a, b: ["C", a, b]),
    "+": (2, lambda a, b: ["+", a, b]),
    "C3": (3, lambda a, b, c: ["C", a, b, c]),
    "+3": (3, lambda a, b, c: ["+", a, b, c]),
    "C+": (3, lambda a, b, c: ["C", ["+", a, b], c]),
    "+C": (3, lambda a, b, c: ["+", ["C", a, b], c]),
    "C++": (4, lambda a, b, c, d: ["C", ["+", a, b], ["+", c, d]]),
    "+CC": (4, lambda a, b, c, d: ["+", ["C", a, b], ["C", c, d]]),
}
PLACES = [
    [(0, 1), (1, 2), (2, 3), (0, 3)], [(1, 2), (0, 2), (0, 3), (1, 3)], [(0, 2), (1, 3), (1, 2), (0, 3)], [(0, 3), (1, 2), (2, 3), (1, 3)],
    [(None, None), (0, 1), (1, None), (0, 2)],
]


def kind_cases(tier):
    for form, (size, _) in KIND_TREES.items():
        for kinds in itertools.product("KLSD", repeat=size):
            for place in range(len(PLACES)):
                for internal in (True, False) if tier == "thorough" or place in (1, 2) else (True,):
                    yield [form, "".join(kinds), place, internal]


@group("C06", "kinds of coefficient sets", kind_cases, chunk=16)
def kinds(ctx, case):
    form, kinds, place, internal = case
    tree = KIND_TREES[form][1](*[[kind, k, *PLACES[place][k]] for k, kind in enumerate(kinds)])
    if not is_leaf(tree) and any(never(c) for c in tree[1:] if not is_leaf(c)):
        return
    check_tree(ctx, tree, internal=internal, dense=True)


# --- one object at several places ---------------------------------------------------------

def shared_cases(tier):
    for form, (size, _) in KIND_TREES.items():
        if size < 2:
            continue
        for which in itertools.product((0, 1, 2), repeat=size):
            if len(set(which)) == size or max(which) > len(set(which)) - 1 or (size == 4 and tier == "quick" and sum(which) % 2):
                continue
            for kinds in itertools.product("KLSD", repeat=len(set(which))):
                for place in (1, 2, 4):
                    yield [form, list(which), "".join(kinds), place]


@group("C06", "one object at several places", shared_cases, chunk=16)
def shared_objects(ctx, case):
    form, which, kinds, place = case
    tree = KIND_TREES[form][1](*[[kinds[k], k, *PLACES[place][k]] for k in which])
    if any(never(c) for c in tree[1:] if not is_leaf(c)):
        return
    check_tree(ctx, tree, shared=True)


# --- many sets ----------------------------------------------------------------------------

def many_cases(tier):
    for number in range(1, 24 if tier == "quick" else 60):
        for kinds in ("K", "L", "S", "D", "KL", "LS", "KLSD", "SK"):
            yield ["+", number, kinds]
    for number in range(1, 4):
        for kinds in ("K", "L", "KLSD"):
            yield ["C", number, kinds]


@group("C06", "many sets", many_cases, chunk=4)
def many(ctx, case):
    op, number, kinds = case
    if op == "+":
        tree = ["+"] + [[kinds[k % len(kinds)], k, 0 if k % 3 else None, 3 if k % 2 else None] for k in range(number)]
    else:
        tree = ["C"] + [[kinds[k % len(kinds)], k, k, k + 1] for k in range(number)]
    check_tree(ctx, tree, dense=True)


# --- long sequences in every rotation -----------------------------------------------------

@group("C06", "long sequences", lambda tier: [[n, r, rev] for n in ((5, 12) if tier == "quick" else range(2, 30)) for r in range(n) for rev in (0, 1)], chunk=2)
def sequence(ctx, case):
    number, rot, rev = case
    edges = np.arange(number + 1) * 10.0
    order = [(k + rot) % number for k in range(number)]
    if rev:
        order = order[::-1]
    nm = catalog.nm_full(1)
    coefs = catalog.Composed(*[catalog.Constant(nm, np.array([k + 1.0, 0, 0]), validity_start=edges[k], validity_end=edges[k + 1]) for k in order])
    model = catalog.SHModel(coefs)
    times = np.concatenate([edges, edges[:-1] + 5, np.nextafter(edges, INF), np.nextafter(edges, -INF)])
    exp = []
    for t in times:
        hit = [k for k in order if edges[k] <= t <= edges[k + 1]]
        exp.append(2.0 * (hit[0] + 1) if hit else NAN)
    # at the pole on the reference sphere the radial field is 2 g10
    got = model.eval(times, np.array([90.0, 0.0, 6371.2]))
    ctx.close(got[:, 2], exp, rtol=1e-13, atol=0, what=f"sequence {order}")
    single = np.array([model.eval(t, np.array([90.0, 0.0, 6371.2]))[2] for t in times])
    ctx.same(single, got[:, 2], "single times")
    inside = ~np.isnan(exp)
    ctx.close(coefs(times)[0][inside, 1, 0], np.array(exp)[inside] / 2, rtol=0, atol=0, what="coefficients")
    # one missing member makes a gap unless it is at an end
    for drop in range(number):
        rest = [k for k in order if k != drop]
        if not rest:
            continue
        make = lambda: catalog.Composed(*[catalog.Constant(nm, np.array([k + 1.0, 0, 0]), validity_start=edges[k], validity_end=edges[k + 1]) for k in rest])
        if 0 < drop < number - 1:
            ctx.raises(make, f"gap at {drop}", (ValueError,))
        else:
            make()
    ctx.count(2 * len(times))


# --- sources --------------------------------------------------------------------------------

@group("C06", "internal and external", lambda tier: [[op, list(p)] for op in "C+" for n in (1, 2, 3) for p in itertools.product((0, 1), repeat=n)], chunk=4)
def sources(ctx, case):
    op, pattern = case
    cls = catalog.Composed if op == "C" else catalog.Combined
    items = [build_leaf(["K", k, 0, 3], bool(p)) for k, p in enumerate(pattern)]
    if len(set(pattern)) > 1:
        ctx.raises(lambda: cls(*items), "mixed internal and external sources", (ValueError,))
        if len(items) == 3:     # hidden in a nested member
            for other in (catalog.Composed, catalog.Combined):
                if pattern[0] == pattern[1]:
                    ctx.raises(lambda: cls(other(*items[:2]), items[2]), "nested mixed sources", (ValueError,))
                if pattern[1] == pattern[2]:
                    ctx.raises(lambda: cls(items[0], other(*items[1:])), "nested mixed sources", (ValueError,))
    else:
        ctx.require(cls(*items).is_internal == bool(pattern[0]), "source")
    if len(items) == 1:
        ctx.require(cls(*items) is items[0] or cls(*items).validity == items[0].validity, "single item")


@group("C06", "no sets", lambda tier: [["C"], ["+"]], chunk=1)
def nothing(ctx, case):
    cls = catalog.Composed if case[0] == "C" else catalog.Combined
    ctx.raises(lambda: cls(), "no coefficient sets", (ValueError, TypeError))


# --- in the dipole frame ---------------------------------------------------------------------

@group("C06", "dipole frame models", lambda tier: [[f, list(c)] for f in ("C+", "+C") for c in itertools.product(range(len(SHORT)), repeat=3)
                                                if tier == "thorough" or sum(c) % 3 == 0], chunk=16)
def dipole(ctx, case):
    """ the same selection applies to models evaluated in the dipole frame """
    form, chosen = case
    tree = KIND_TREES[form][1](*[["KLK"[k], k, *SHORT[i]] for k, i in enumerate(chosen)])
    if gap(tree) or any(never(c) for c in tree[1:] if not is_leaf(c)):
        return
    coefs = build(tree)
    model = catalog.DipoleModel(coefs, catalog.POLE)
    times = times_of(tree)
    got = model.eval(np.array(times), LOC)
    for k, t in enumerate(times):
        full = coef_at(tree, t)
        exp = [NAN] * 3 if full is None else em.sheval_dipole(LOC, full, *catalog.POLE, SPHERICAL, SPHERICAL, mode=2, scale_gradient=-1.0)
        if not ctx.close(got[k], exp, rtol=0, atol=1e-7, what=f"time {t!r} of {tree}"):
            return
    ctx.count(len(times))
