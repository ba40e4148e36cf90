""" C03 - array evaluation equals point-by-point evaluation """
import itertools
import numpy as np
from ..core import group
from .. import catalog

ENTRIES = {}
ORDER = []


def load():
    if not ENTRIES:
        for e in catalog.entries():
            ENTRIES[e.name] = e
            ORDER.append(e.name)
    return ENTRIES


CACHE = {}


def singles(entry):
    """ every element of the alphabet evaluated alone, as single values """
    if entry.name not in CACHE:
        CACHE[entry.name] = [entry(*[np.array(v, dtype=float) for v in e]) for e in entry.elements]
    return CACHE[entry.name]


def expected_of(entry, idx):
    base = singles(entry)
    return [np.array([base[i][k] for i in idx]) for k in range(len(base[0]))]


def compare(ctx, entry, got, expected, what):
    if len(got) != len(expected):
        return ctx.require(False, f"{what}: {len(got)} results instead of {len(expected)}")
    for k, (a, b) in enumerate(zip(got, expected)):
        scale = None
        if b.size:
            mag = np.where(np.isfinite(b), np.abs(b), 0)
            scale = mag.max(axis=-1, keepdims=True) if b.ndim > 1 else mag
            scale = np.broadcast_to(scale, b.shape)
        if not ctx.close(a, b, rtol=entry.rtol, atol=1e-300, scale=scale, what=f"{what} result {k}"):
            return False
    return True


# --- all sequences over the alphabet ---------------------------------------------

def seq_cases(tier):
    load()
    for name in ORDER:
        entry = ENTRIES[name]
        size = len(entry.elements)
        depth = entry.depth + (1 if tier == "thorough" and size ** (entry.depth + 1) <= 400000 else 0)
        while depth > 2 and size ** depth > (12000 if tier == "quick" else 400000):
            depth -= 1
        for first in range(size):
            yield [name, first, depth]


@group("C03", "sequences of elements", seq_cases, chunk=4)
def sequences(ctx, case):
    """ every sequence up to the depth that starts with the element """
    name, first, depth = case
    entry = load()[name]
    size = len(entry.elements)
    arrays = entry.stack(entry.elements)
    base = [np.array([s[k] for s in singles(entry)]) for k in range(len(singles(entry)[0]))]
    for length in range(1, depth + 1):
        for rest in itertools.product(range(size), repeat=length - 1):
            idx = [first, *rest]
            got = entry(*[a[idx] for a in arrays])
            ctx.count(1)
            ctx.transition(1)
            if not compare(ctx, entry, got, [b[idx] for b in base], f"{name} elements {idx}"):
                return
    ctx.state(name, first)


# --- long histories: every ordered pair of elements, in one array ------------------

def debruijn_cases(tier):
    load()
    for name in ORDER:
        for variant in range(4):
            yield [name, variant]


@group("C03", "all transitions in one long array", debruijn_cases, chunk=4)
def debruijn(ctx, case):
    name, variant = case
    entry = load()[name]
    size = len(entry.elements)
    # a closed walk using every ordered pair of elements as neighbours
    order = list(range(size))
    if variant == 1:
        order.reverse()
    if variant >= 2:
        order = order[1::2] + order[::2]
    walk = []
    for gap in range(size):
        for i in order:
            walk += [i, order[(order.index(i) + gap) % size]]
    if variant == 3:
        walk = walk + walk[::-1]
    arrays = entry.stack(entry.elements)
    got = entry(*[a[walk] for a in arrays])
    ctx.transition(len(walk))
    compare(ctx, entry, got, expected_of(entry, walk), f"{name} long array")


# --- lengths of the arrays -------------------------------------------------------------

LENGTHS = [*range(1, 70), 96, 100, 127, 128, 129, 191, 200, 255, 256, 257, 500, 511, 512, 513, 1000, 1023, 1024, 1025]
LONGER = [2047, 2048, 2049, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 10000, 10007]
LONGEST = [16384, 16385, 32768, 32769, 65535, 65536, 65537, 100003, 262145]


def length_cases(tier):
    load()
    sizes = LENGTHS + LONGER + (LONGEST if tier == "thorough" else [16385, 65537])
    for k in range(0, len(sizes), 8):
        for name in ORDER:
            if sizes[k] > 1100 and tier == "quick" and ENTRIES[name].group == "model":
                continue
            yield [name, sizes[k:k + 8]]


def cyclic(entry, count):
    """ elements repeated in an order of a long period """
    size = len(entry.elements)
    k = np.arange(count)
    return (k + k // size + (k // 256) * (k % 2)) % size


@group("C03", "lengths of the arrays", length_cases, chunk=2)
def lengths(ctx, case):
    """ no length of the array is special """
    name, sizes = case
    entry = load()[name]
    arrays = entry.stack(entry.elements)
    base = [np.array([s[k] for s in singles(entry)]) for k in range(len(singles(entry)[0]))]
    for count in sizes:
        idx = cyclic(entry, count)
        shapes = [(count,)]
        if entry.max_ndim > 1 and count > 69 and count < 20000:
            shapes += [s for s in ((2, count // 2), (count // 2, 2), (1, count)) if s[0] * s[1] == count]
        for shape in shapes:
            sel = idx.reshape(shape)
            got = entry(*[a[sel] for a in arrays])
            ctx.count(count)
            if not compare(ctx, entry, got, [b[sel] for b in base], f"{name}, {shape} elements"):
                return
    ctx.state(name, sizes[0])


# --- shapes and broadcasting --------------------------------------------------------

SHAPES = [(), (1,), (2,), (5,), (0,), (1, 1), (2, 3), (3, 2), (0, 2), (2, 0), (2, 1, 2), (1, 3, 1), (2, 2, 0)]
MORE_SHAPES = [(3, 1, 2, 2), (1, 1, 1, 1), (4, 5), (5, 4, 3), (0, 0), (7,), (2, 0, 3)]


def shape_cases(tier):
    load()
    for name in ORDER:
        entry = ENTRIES[name]
        for shape in SHAPES + (MORE_SHAPES if tier == "thorough" else []):
            if len(shape) > entry.max_ndim:
                continue
            yield [name, list(shape)]


def prefixes(entry, ndim):
    """ the leading dimensions each argument may have """
    count = len(entry.args)
    names = [name for name, _ in entry.args]
    if ndim == 0 or entry.bcast == "same":
        return [(ndim,) * count]
    choice = range(ndim + 1) if entry.bcast == "prefix" else (0, ndim)
    out = [c for c in itertools.product(choice, repeat=count) if max(c) == ndim]
    if entry.bcast == "scalar" and entry.args[0][1] == 1:   # vectors with a single angle
        out = [c for c in out if c[0] == ndim]
        if entry.name.startswith("vrot_"):
            # one latitude and longitude for all vectors, or one for each
            out = [c for c in out if len(set(c[1:3])) == 1 and len(set(c[3:])) <= 1]
    if "location" in names and "f107" in names:
        # the model options do not extend the shape of the times and locations
        out = [c for c in out if max(c[:2]) == ndim]
    if len(out) > 130:
        out = [c for c in out if len(set(c)) <= 2 and sum(v != ndim for v in c) <= 2] 
    return out


@group("C03", "shapes and broadcasting", shape_cases, chunk=4)
def shapes(ctx, case):
    name, shape = case
    entry = load()[name]
    shape = tuple(shape)
    size = len(entry.elements)
    narg = len(entry.args)
    arrays = entry.stack(entry.elements)
    finite = [i for i, s in enumerate(singles(entry)) if all(np.all(np.isfinite(r)) for r in s)] or list(range(size))
    for combo, pref in enumerate(prefixes(entry, len(shape))):
        for start in (0, 1):
            pool = list(range(size)) if start else finite
            # index of the element each argument takes its value from
            idxs = []
            for k in range(narg):
                sub = shape[:pref[k]]
                count = int(np.prod(sub)) if sub else 1
                step = 1 + (k if entry.bcast != "same" and len(set(pref)) > 1 else 0)
                idxs.append(np.array([pool[(start + combo + step * j) % len(pool)] for j in range(count)], dtype=int).reshape(sub))
            args = [arrays[k][idxs[k]] for k in range(narg)]
            got = entry(*args)
            ctx.count(1)
            full = [i.reshape(i.shape + (1,) * (len(shape) - i.ndim)) for i in idxs]
            full = np.broadcast_arrays(*[np.broadcast_to(i, shape) for i in full])
            base = singles(entry)
            expected = [np.zeros(shape + np.shape(b), float) for b in base[0]]
            for pos in np.ndindex(*shape):
                which = [int(f[pos]) for f in full]
                if len(set(which)) == 1:
                    one = base[which[0]]
                else:
                    one = entry(*[np.array(entry.elements[w][k], dtype=float) for k, w in enumerate(which)])
                for k, b in enumerate(one):
                    expected[k][pos] = b
            if not compare(ctx, entry, got, expected, f"{name} shape {shape} dims {pref}"):
                return


# --- neighbouring elements: one argument changed slightly -----------------------------

STEPS = [("ulp", None), ("1e-12", 1e-12), ("1e-9", 1e-9), ("1e-6", 1e-6), ("1e-3", 1e-3), ("0.1", 0.1), ("sign", -2.0)]


def neighbour_cases(tier):
    load()
    for name in ORDER:
        for step, _ in STEPS:
            yield [name, step]


def stepped(value, size):
    if size is None:
        return np.nextafter(value, np.inf)
    return value * (1.0 + size) if value else size


@group("C03", "neighbouring elements", neighbour_cases, chunk=8)
def neighbours(ctx, case):
    """ an element and its copy with one slightly changed argument, in both orders """
    name, step = case
    entry, size = load()[name], dict(STEPS)[step]
    arrays = entry.stack(entry.elements)
    base = singles(entry)
    finite = [i for i, s in enumerate(base) if all(np.all(np.isfinite(r)) for r in s)]
    chosen = sorted({0, *finite[:2], *finite[-1:]}) if not ctx.thorough else range(len(base))
    for i in chosen:
        for k in range(len(entry.args)):
            value = np.array(entry.elements[i][k], dtype=float)
            for pos in itertools.islice(np.ndindex(*value.shape), 8):
                if not np.isfinite(value[pos]) or (size == -2.0 and not value[pos]):
                    continue
                other = value.copy()
                other[pos] = stepped(value[pos], size)
                elem = [np.array(v, dtype=float) for v in entry.elements[i]]
                elem[k] = other
                alone = entry(*elem)
                for order in ([0, 1], [1, 0], [0, 1, 0], [1, 1, 0]):
                    args = [np.array([arrays[j][i] if not o else elem[j] for o in order]) for j in range(len(elem))]
                    got = entry(*args)
                    ctx.count(1)
                    want = [np.array([base[i][r] if not o else alone[r] for o in order]) for r in range(len(alone))]
                    if not compare(ctx, entry, got, want, f"{name} element {i} with argument {k} {pos} changed by {step}, order {order}"):
                        return
    ctx.state(name, step)


# --- contradicting dimensions ---------------------------------------------------------

CONTRADICTIONS = [((2,), (3,)), ((3,), (2,)), ((2, 3), (2, 2)), ((2, 2), (2, 3)), ((3, 2), (2, 2)), ((2, 2), (3, 2)), ((2, 3), (3,)), ((3,), (2, 3)), ((4,), (2, 2)), ((2, 2), (4,)), ((2, 3), (3, 2)), ((7,), (6,)), ((2, 2, 3), (2, 3)), ((2, 2, 2), (2, 2, 3))]
# arguments not used by the given conversion
UNUSED = {
    "vrotate 0->1": ("coord_in",), "vrotate 0->2": ("coord_in", "coord_out"), "vrotate 1->0": ("coord_in",),
    "vrotate 1->2": ("coord_out",), "vrotate 2->0": ("coord_in",), "vrotate 2->1": ("coord_in",),
    "vrot_from_dipole cart": ("lat_out", "lon_out"),
}
UNUSED["vrotate 1->2"] = UNUSED["vrotate 0->2"] = UNUSED["vrotate 2->0"] = UNUSED["vrotate 2->1"] = UNUSED["vrotate 0->1"] = UNUSED["vrotate 1->0"] = ("coord_in", "coord_out")


def contradiction_cases(tier):
    load()
    for name in ORDER:
        entry = ENTRIES[name]
        names = [a for a, _ in entry.args]
        for i, j in itertools.combinations(range(len(names)), 2):
            if names[i] not in UNUSED.get(name, ()) and names[j] not in UNUSED.get(name, ()):
                for rest in ("single", "first", "second"):
                    if len(names) > 2 or rest == "single":
                        yield [name, i, j, rest]


@group("C03", "contradicting dimensions", contradiction_cases, chunk=16)
def contradicting(ctx, case):
    """ arguments which have no common dimensions are refused """
    name, i, j, rest = case
    entry = load()[name]
    for first, second in CONTRADICTIONS:
        if max(len(first), len(second)) > entry.max_ndim:
            continue
        if entry.name.startswith("magnetic universal time") and first[-len(second):] == second[-len(first):]:
            continue  # NumPy can combine them
        for salt in range(min(2, len(entry.elements))):
            args = []
            for k, value in enumerate(entry.elements[salt]):
                lead = {i: first, j: second}.get(k, {"single": (), "first": first, "second": second}[rest])
                value = np.asarray(value, dtype=float)
                args.append(np.broadcast_to(value, lead + value.shape).copy())
            try:
                got = entry(*args)
            except (ValueError, TypeError, IndexError):
                got = None
            ctx.count(1)
            if not ctx.require(got is None, f"{name}: {entry.args[i][0]} of {first} and {entry.args[j][0]} of {second} (others {rest}) accepted: {[g.shape for g in got or ()]}"):
                return
    ctx.state(name, i, j)


# --- many dimensions ------------------------------------------------------------------

def rank_cases(tier):
    load()
    for name in ORDER:
        if ENTRIES[name].max_ndim >= 4:
            for rank in [*range(4, 19), 24, 32] if tier == "thorough" else (4, 7, 8, 9, 14, 15, 16, 17, 32):
                yield [name, rank]


@group("C03", "many dimensions", rank_cases, chunk=16)
def ranks(ctx, case):
    """ arrays of up to 15 leading dimensions are evaluated as those of one, arrays of more either so or refused """
    name, rank = case
    entry = load()[name]
    size = min(len(entry.elements), 4)
    arrays = [a[:size] for a in entry.stack(entry.elements)]
    base = [np.array([s[k] for s in singles(entry)[:size]]) for k in range(len(singles(entry)[0]))]
    lower = [None]
    if entry.bcast == "prefix" and len(arrays) > 1:
        lower += list(range(len(arrays)))
    for place in (0, rank // 2, rank - 1):
        shape = (1,) * place + (size,) + (1,) * (rank - 1 - place)
        for less in lower:
            args = []
            for k, a in enumerate(arrays):
                lead = shape[:place + 1] if k == less else shape
                args.append(a.reshape(lead + a.shape[1:]))
            try:
                got = entry(*args)
            except ValueError as exc:
                if rank > 15 or less is not None and "option" in str(exc):
                    continue
                if less is not None and {"f107", "lat_sol"} & {n for n, _ in entry.args} and entry.args[less][0] in ("time", "location"):
                    continue    # options do not extend the other arguments
                raise
            ctx.count(1)
            if not compare(ctx, entry, got, [b.reshape(shape + b.shape[1:]) for b in base], f"{name} shape {shape} shorter {less}"):
                return
    ctx.state(name, rank)
