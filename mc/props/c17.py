""" C17 - quasi-dipole results do not depend on the history of earlier calls """
import itertools
import os
import pickle
import shutil
import tempfile
import numpy as np
import eoxmagmod as em
from eoxmagmod import data as bundled
from ..core import group
from .. import ref
from ..ref import LD, SPHERICAL, GEODETIC

NAN, INF = float("nan"), float("inf")
# results are single precision numbers in degrees
CLOSE = 4e-5

# --- coefficient files -----------------------------------------------------------------------

DIRECTORY = None


def ntermsh(nmax, mmax):
    return mmax * (2 * nmax - mmax + 1) + nmax + 1


def make_file(name, nmax, mmax, lmax, epochs, salt, tilt, steep=0.0):
    """ a small valid file: a tilted dipole with perturbations changing in time """
    size = ntermsh(nmax, mmax) * (lmax + 1)
    values = ref.generic(6, len(epochs), size, salt=salt) * 0.02
    # first harmonics in the layout of the file
    values[0, :, nmax + 1] += 1.0           # x: cos(phi) sin(theta)
    values[1, :, nmax + 2] += 1.0           # y: sin(phi) sin(theta)
    values[2, :, 1] += 0.8 + tilt           # z: cos(theta)
    values[2, :, nmax + 1] += 0.1 * np.arange(1, len(epochs) + 1) * (1 + tilt)
    values[0, :, 1] += -0.05 * np.arange(len(epochs))
    # strong but mutually compensating dependence on the height
    values[2, :, 1] -= steep
    if steep:
        values[2, :, ntermsh(nmax, mmax) + 1] += steep
    path = os.path.join(DIRECTORY, name)
    with open(path, "w", encoding="ascii") as fout:
        fout.write(f" {len(epochs)} {nmax} {mmax} {lmax} {size}\n")
        fout.write(" ".join("%.5f" % e for e in epochs) + "\n")
        fout.write(" ".join("%.16f" % v for v in values.ravel()) + "\n")
    return path


def make_files():
    global DIRECTORY
    if DIRECTORY is None or not os.path.isdir(DIRECTORY):
        DIRECTORY = tempfile.mkdtemp(prefix="c17-")
        FILES.update({
            "A": make_file("a.txt", 3, 2, 1, [2000.0, 2005.0, 2012.5], 960, 0.0),
            "B": make_file("b.txt", 2, 2, 0, [2004.0], 961, 0.1),
            "C": make_file("c.txt", 3, 2, 1, [2000.0, 2005.0, 2012.5], 962, 0.05),
            "D": make_file("d.txt", 5, 3, 4, [1990.0, 2002.0], 963, -0.1),
            "E": make_file("e.txt", 1, 1, 2, [2001.0, 2003.0, 2010.0, 2010.5], 964, 0.2),
            "F": make_file("f.txt", 2, 1, 2, [2000.0, 2000.5], 965, 0.3, steep=100.0),
            "latest": bundled.APEX_LATEST, "old": bundled.APEX_2015,
        })
        with open(FILES["A"], encoding="ascii") as fin:
            text = fin.read()
        os.makedirs(os.path.join(DIRECTORY, "x" * 200, "y" * 200, "z" * 200))
        long = os.path.join(DIRECTORY, "x" * 200, "y" * 200, "z" * 200, "a.txt")
        for name, content in {"copy.txt": text, "cut.txt": text[:len(text) // 2], "words.txt": "no numbers here\n", "empty.txt": "",
                              "header.txt": text.replace(" 3 3 2 1 ", " 3 3 2 1 9", 1), "negative.txt": text.replace(" 3 3 2 1 ", " 3 3 0 1 ", 1),
                              "huge.txt": " 100000 100000 100000 100000 1\n1 2 3\n", "letters.txt": text.replace("0.0", "0.x", 40), long: text}.items():
            with open(os.path.join(DIRECTORY, name), "w", encoding="ascii") as fout:
                fout.write(content)
            FILES[name if name != long else "long name"] = os.path.join(DIRECTORY, name)
        FILES["directory"] = DIRECTORY
        FILES["missing"] = os.path.join(DIRECTORY, "missing.txt")
        FILES["too long"] = os.path.join(DIRECTORY, "/.".join([""] * 600), "a.txt")
    return FILES


FILES = {}
BAD = ("cut.txt", "words.txt", "empty.txt", "header.txt", "negative.txt", "huge.txt", "letters.txt", "directory", "missing", "too long")

# --- names of the files -----------------------------------------------------------------------

def name_cases(tier):
    step = 17 if tier == "quick" else 1
    for size in (1, 9, 200):                    # length of the file name
        for folders in (0, 1, 3):               # long folders above
            where = range(0, size) if size < 100 else sorted({*range(0, size, step), 0, 1, size - 2, size - 1})
            for k in where:
                yield [size, folders, "letter", k]
            for kind in ("longer", "blank", "blanks", "lead", "case", "folder"):
                yield [size, folders, kind, 0]


@group("C17", "names of the files", name_cases, chunk=8)
def names(ctx, case):
    """ files of similar names are told apart """
    size, folders, kind, k = case
    make_files()
    with tempfile.TemporaryDirectory(prefix="c17-") as root:
        base = os.path.join(root, *(("xyz"[i] * 200) for i in range(folders)))
        os.makedirs(base, exist_ok=True)
        first, second = "a" * size, {
            "letter": "a" * k + "b" + "a" * (size - k - 1), "longer": "a" * (size + 1), "blank": "a" * size + " ",
            "blanks": "a" * size + "   ", "lead": " " + "a" * size, "case": "A" * size, "folder": os.path.join("a", "a" * size),
        }[kind]
        if kind == "folder":
            first = os.path.join("b", first)
        paths = []
        for name, source in ((first, "A"), (second, "C")):
            path = os.path.join(base, name)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            shutil.copy(FILES[source], path)
            paths.append((path, FILES[source]))
        for path, source in (paths[0], paths[1], paths[0], paths[1]):
            for func in (em.eval_qdlatlon, em.eval_qdlatlon_with_base_vectors):
                args = (40.0, 50.0, 6800.0, 2006.0)
                got, want = func(*args, path), exact(source, *([v] for v in args))
                ctx.close(float(got[0]), float(want[0][0]), 0, 2e-3, what=f"{case}: latitude, {os.path.basename(path)!r}")
                ctx.close(float(got[1]), float(want[1][0]), 0, 2e-3, what=f"{case}: longitude, {os.path.basename(path)!r}")
                ctx.count(1)
    ctx.state(*case)


# --- reference model ----------------------------------------------------------------------------

_CACHE = {}


def read(path):
    if path not in _CACHE:
        with open(path, encoding="ascii") as fin:
            words = fin.read().split()
        nepoch, nmax, mmax, lmax, nterm = map(int, words[:5])
        numbers = np.array(words[5:5 + nepoch + nterm * nepoch * 6], float)
        _CACHE[path] = nmax, mmax, lmax, numbers[:nepoch], numbers[nepoch:].reshape(6, nepoch, lmax + 1, -1)[:3]
    return _CACHE[path]


REQ, FLAT = 6378.1370, 1 / 298.257223563
RE = REQ * (1 - FLAT / 3)
ECC2 = FLAT * (2 - FLAT)


def exact(path, lat, lon, rad, time):
    """ latitude, longitude and base vectors by definition (arrays of points) """
    nmax, mmax, lmax, epochs, coeff = read(path)
    lat, lon, rad, time = (np.asarray(v, float) for v in (lat, lon, rad, time))
    epoch = np.clip(time, epochs[0], epochs[-1])
    if len(epochs) == 1:
        mixed = np.broadcast_to(coeff[:, 0, None], (3, len(time)) + coeff.shape[2:])
    else:
        k = np.clip(np.searchsorted(epochs, epoch, side="left") - 1, 0, len(epochs) - 2)
        w = ((epochs[k + 1] - epoch) / (epochs[k + 1] - epochs[k]))[:, None, None]
        mixed = w * coeff[:, k] + (1 - w) * coeff[:, k + 1]
    geod = ref.convert(np.stack([lat, lon, rad], -1), SPHERICAL, GEODETIC).astype(float)
    glat, height = geod[:, 0], geod[:, 2]
    rho = RE / (RE + height)
    powers = rho[:, None] ** np.arange(lmax + 1)
    terms = np.einsum("cplt,pl->cpt", mixed, powers)      # per component, point and harmonic
    p, dp, mq = ref.legendre(glat, nmax)
    order, sh, dt, df = [(n, 0, 0) for n in range(nmax + 1)] + [(n, m, s) for m in range(1, mmax + 1) for n in range(m, nmax + 1) for s in (0, 1)], [], [], []
    s1, c1 = ref.sincosd(lon)
    angle = np.arctan2(s1, c1)
    for n, m, s in order:
        scale = np.sqrt(LD(2 * n + 1) / 2) / (np.sqrt(LD(2)) if m else 1)
        i = n * (n + 1) // 2 + m
        cos, sin = np.cos(m * angle), np.sin(m * angle)
        sh.append(scale * p[..., i] * (sin if s else cos))
        dt.append(scale * dp[..., i] * (sin if s else cos))
        df.append(scale * mq[..., i] * ((cos if s else -sin) if m else 0))
    sh, dt, df = (np.array(v).T for v in (sh, dt, df))
    x, y, z = (sh * terms).sum(-1)
    q = np.hypot(x, y)
    qlat, qlon = np.arctan2(z, q), np.arctan2(y, x)
    east = (df * terms).sum(-1)
    north = -(dt * terms).sum(-1)
    sg, _ = ref.sincosd(glat)
    jt = 1 - ECC2 * sg * sg
    r = REQ / np.sqrt(jt)
    jj = (height + (1 - ECC2) * r / jt) / (RE + height)
    rr = (height + r) / (RE + height)
    gl = lambda g, d: (-(np.cos(qlon) * g[0] + np.sin(qlon) * g[1]) * np.sin(qlat) + np.cos(qlat) * g[2]) / d
    gp = lambda g, d: (-np.sin(qlon) * g[0] + np.cos(qlon) * g[1]) / d
    f11, f12, f21, f22 = gl(north, jj), -gl(east, rr), -gp(north, jj), gp(east, rr)
    return [v.astype(float) for v in (np.degrees(qlat), np.degrees(qlon), f11, f12, f21, f22, f11 * f22 - f12 * f21, q / np.hypot(q, z))]


def compare_exact(ctx, got, lat, lon, rad, time, path, what):
    want = exact(path, lat, lon, rad, time)
    got = [np.atleast_1d(v) for v in got]
    ok = ctx.close(got[0], want[0], rtol=0, atol=2e-3, what=f"{what}: latitude")
    turn = (got[1] - want[1] + 180) % 360 - 180
    ok &= ctx.close(turn * want[7], 0 * turn, rtol=0, atol=2e-3, what=f"{what}: longitude")
    for k in range(2, len(got)):
        # the directions are defined up to the accuracy of the quasi-dipole longitude
        ok &= ctx.close(got[k], want[k], rtol=0, atol=2e-3 * (1 + 1 / np.maximum(want[7], 1e-3)).max() if k < 6 else 2e-3, what=f"{what}: {'f11 f12 f21 f22 f'.split()[k - 2]}")
    return ok


# --- operations ------------------------------------------------------------------------------------

POINTS = [(10.0, 20.0, 6371.2), (-60.0, 120.0, 6871.2), (75.0, -100.0, 6371.2), (90.0, 0.0, 6500.0), (0.0, 180.0, 7000.0),
          (30.0, 20.0, 6371.2), (30.0, 20.0, 6371.202)]


def call(file, times, points, vectors=False, scalar=False):
    path = make_files()[file]
    func = em.eval_qdlatlon_with_base_vectors if vectors else em.eval_qdlatlon
    if scalar:
        args = POINTS[points[0]] + (times[0],)
    else:
        args = tuple(np.array([POINTS[p] for p in points], float).reshape(-1, 3).T) + (np.array(times, float),)
    return [np.atleast_1d(v) for v in func(*args, fname=path)]


def failing(kind):
    path = make_files()["A"]
    if kind == "shape":
        return em.eval_qdlatlon([1.0, 2.0], [3.0], 6371.2, 2001.0, path)
    if kind == "text":
        return em.eval_qdlatlon("north", 1.0, 6371.2, 2001.0, path)
    if kind == "vectors":
        return em.eval_qdlatlon_with_base_vectors([1.0], [2.0, 3.0], 6371.2, 2001.0, path)
    raise KeyError(kind)


OPS = {}
for _f in "ABCDEF":
    OPS[f"{_f} 2001"] = ("call", _f, [2001.0], [0], False, True)
for _name, _op in {
        "A 2001 v": ("call", "A", [2001.0], [0], True, True), "A 2001 high": ("call", "A", [2001.0], [1], False, True),
        "A 2001 same height": ("call", "A", [2001.0], [2], False, True), "A 2001.001": ("call", "A", [2001.001], [0], False, True),
        "A 2008": ("call", "A", [2008.0], [0], False, True), "A node": ("call", "A", [2005.0], [0], True, True),
        "A early": ("call", "A", [1900.0], [0], False, True), "A late": ("call", "A", [2090.0], [0], True, True),
        "A -999": ("call", "A", [-999.0], [0], False, True), "A nan": ("call", "A", [NAN], [0], False, True),
        "A place nan": ("call", "A", [2001.0], [0, 0], False, False), "A empty": ("call", "A", [], [], False, False),
        "A batch": ("call", "A", [2001.0, 2008.0, 2001.0, 2001.0], [0, 1, 0, 1], False, False),
        "A batch v": ("call", "A", [2008.0, 2008.0, NAN, 2001.0], [1, 0, 0, 3], True, False),
        "C 2008 v": ("call", "C", [2008.0], [1], True, True), "D 1995 high": ("call", "D", [1995.0], [1], False, True),
        "E v": ("call", "E", [2010.25], [4], True, True), "B v": ("call", "B", [2004.0], [0], True, True),
        "F close": ("call", "F", [2000.25], [5], False, True), "F close epoch": ("call", "F", [2000.2502], [5], True, True),
        "F close height": ("call", "F", [2000.25], [6], False, True), "F close batch": ("call", "F", [2000.25, 2000.25, 2000.2502, 2000.2502], [5, 6, 6, 5], False, False),
        "copy": ("call", "copy.txt", [2001.0], [0], False, True), "long name v": ("call", "long name", [2001.0], [0], True, True),
        "long name": ("call", "long name", [2008.0], [1], False, True),
        "mlt": ("mlt",), "subsol": ("subsol",), "bad shape": ("failing", "shape"), "bad text": ("failing", "text"), "bad vectors": ("failing", "vectors"),
}.items():
    OPS[_name] = _op
OPS["A place nan"] = ("nanplace",)
for _f in BAD:
    OPS[_f] = ("call", _f, [2001.0], [0], False, True)
OPS["cut.txt v"] = ("call", "cut.txt", [2001.0, 2008.0], [0, 1], True, False)
LARGE = {
    "latest 2000": ("call", "latest", [2000.0], [0], False, True), "latest 2003.7 v": ("call", "latest", [2003.7], [1], True, True),
    "latest 2003.71": ("call", "latest", [2003.71], [1], False, True), "latest 1900": ("call", "latest", [1900.0], [3], False, True),
    "latest batch": ("call", "latest", [2012.0, 2029.5, 2012.0], [0, 1, 2], True, False), "old 2003.7": ("call", "old", [2003.7], [1], False, True),
    "old 2030": ("call", "old", [2030.0], [0], True, True),
}
ALL = {**OPS, **LARGE}


def perform(name):
    """ result of the operation: arrays, or the kind of error """
    op = ALL[name]
    try:
        if op[0] == "call":
            return [v.tolist() for v in call(*op[1:])]
        if op[0] == "nanplace":
            path = make_files()["A"]
            return [np.atleast_1d(v).tolist() for v in em.eval_qdlatlon([NAN, 10.0, 10.0, 10.0], [20.0, NAN, 20.0, 20.0], [6371.2, 6371.2, NAN, 6371.2], [2001.0] * 4, path)]
        if op[0] == "mlt":
            return [em.eval_mlt([0.0, 100.0, -50.0], [0.0, 4000.25, 4000.25]).tolist()]
        if op[0] == "subsol":
            return [v.tolist() for v in em.eval_subsol([0.0, 4000.25, -3000.0])]
        return failing(op[1])
    except (RuntimeError, IOError, ValueError, TypeError) as exc:
        return type(exc).__name__


def alone(name):
    """ the result in a process which has made no other call """
    read_end, write_end = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(read_end)
            with os.fdopen(write_end, "wb") as fout:
                pickle.dump(perform(name), fout)
        finally:
            os._exit(0)
    os.close(write_end)
    with os.fdopen(read_end, "rb") as fin:
        raw = fin.read()
    os.waitpid(pid, 0)
    return pickle.loads(raw) if raw else "process ended"


BASE = {}


def prepare(_tier="quick"):
    """ to be called before any quasi-dipole call of this process """
    if not BASE:
        make_files()
        for name in ALL:
            BASE[name] = alone(name)


def check(ctx, name, what):
    prepare()
    got, want = perform(name), BASE[name]
    ctx.count(1)
    if isinstance(want, str) or isinstance(got, str):
        return ctx.require(type(got) is type(want) and got == want, f"{what}: {got!r} instead of {want!r}")
    ok = ctx.require(len(got) == len(want), f"{what}: {len(got)} results")
    for k, (a, b) in enumerate(zip(got, want)):
        ok = ok and ctx.close(np.array(a), np.array(b), rtol=1e-6, atol=CLOSE, what=f"{what}: result {k} differs from the one in a fresh process")
    return ok


@group("C17", "operations alone", lambda tier: [[name] for name in ALL], chunk=4)
def single(ctx, case):
    name, = case
    prepare()
    want = BASE[name]
    if ALL[name][0] == "failing" or name.split(" v")[0] in BAD:
        ctx.require(isinstance(want, str) and want != "process ended", f"{name}: {want!r} instead of an error")
    else:
        ctx.require(not isinstance(want, str), f"{name}: {want!r}")
    check(ctx, name, f"{name} again")


def history_cases(tier):
    names = list(OPS)
    for a, b in itertools.product(names, repeat=2):
        yield [a, b]


@group("C17", "histories of three operations", history_cases, chunk=8)
def histories(ctx, case):
    """ first two operations, then each of all """
    ctx.state(*case)
    for last in OPS:
        for name in (*case, last):
            if not check(ctx, name, f"{name} in the history {case + [last]}"):
                return
        ctx.transition(3)


CORE = ["A 2001", "A 2001 v", "A 2001 high", "A 2001 same height", "A 2008", "C 2001", "B 2001", "E v", "cut.txt", "words.txt", "missing", "A nan", "A batch v", "copy", "F close", "F close epoch", "F close height"]


@group("C17", "histories of four and five operations", lambda tier: [list(p) for p in itertools.product(CORE, repeat=2 if tier == "quick" else 3)], chunk=8)
def longer(ctx, case):
    ctx.state(*case)
    for rest in itertools.product(CORE, repeat=2):
        for name in (*case, *rest):
            if not check(ctx, name, f"{name} in the history {case + list(rest)}"):
                return
        ctx.transition(len(case) + 2)


@group("C17", "histories with the bundled files", lambda tier: [list(p) for p in itertools.product(list(LARGE) + ["A 2001 high", "cut.txt", "B v"], repeat=2 if tier == "quick" else 3)], chunk=2)
def large(ctx, case):
    ctx.state(*case)
    for last in [case[0], *LARGE] if ctx.thorough else [case[0]]:
        for name in (*case, last):
            if not check(ctx, name, f"{name} in the history {case + [last]}"):
                return
        ctx.transition(len(case) + 1)


# --- batches ---------------------------------------------------------------------------------------

CLOSE_ELEMENTS = [(p, t) for p in (5, 6) for t in (2000.25, 2000.2502, 2000.0, 1999.9999, 2000.5, 2000.5002)]
ELEMENTS = [(p, t) for t in (2001.0, 2008.0, 2001.001, 1800.0) for p in (0, 1, 2)] + [(0, NAN), (3, 2005.0), (4, 2500.0)]


def elements(file):
    return CLOSE_ELEMENTS if file == "F" else ELEMENTS


@group("C17", "batches", lambda tier: [[f, a, b] for f in ("A", "E", "F") for a in range(len(elements(f))) for b in range(len(elements(f)))], chunk=4)
def batches(ctx, case):
    """ elements of arrays evaluate as single values, with and without vectors """
    file, *first = case
    menu = elements(file)
    singles = {}
    for k, (p, t) in enumerate(menu):
        singles[k] = [float(v[0]) for v in call(file, [t], [p], True, True)]
    lasts = itertools.product(range(len(menu)), repeat=1 if not ctx.thorough else 2)
    for rest in [(), *lasts]:
        picks = [*first, *rest]
        points, times = [menu[k][0] for k in picks], [menu[k][1] for k in picks]
        plain, full = call(file, times, points), call(file, times, points, True)
        want = np.array([singles[k] for k in picks]).T
        ctx.count(2)
        ctx.transition(len(picks))
        for k in range(7):
            if k < 2 and not ctx.close(plain[k], want[k], rtol=1e-6, atol=CLOSE, what=f"result {k} of {picks}"):
                return
            if not ctx.close(full[k], want[k], rtol=1e-6, atol=CLOSE, what=f"result {k} of {picks} with vectors"):
                return


@group("C17", "long batches", lambda tier: [[f, n, s] for f in ("A", "D", "latest") for n in (1, 2, 10, 100, 1000) for s in range(4)], chunk=1)
def long_batches(ctx, case):
    file, size, style = case
    k = np.arange(size)
    lat, lon = -80 + (k * 37) % 161, -180 + (k * 61.5) % 360
    rad = 6371.2 + [0 * k, (k % 3) * 150.0, (k * 7) % 900, (k // 10) * 50.0][style]
    time = 2000.0 + [0.5 + 0 * k, (k % 2) * 6.5, (k * 0.37) % 30, (k // 20) * 0.1][style]
    path = make_files()[file]
    plain = em.eval_qdlatlon(lat, lon, rad, time, path)
    full = em.eval_qdlatlon_with_base_vectors(lat, lon, rad, time, path)
    ctx.count(2 * size)
    for a, b, what in zip(plain, full, ("latitudes", "longitudes")):
        ctx.close(a, b, rtol=1e-6, atol=CLOSE, what=f"{what} with and without vectors")
    turned = em.eval_qdlatlon_with_base_vectors(*(v[::-1] for v in (lat, lon, rad, time)), path)
    for a, b in zip(turned, full):
        ctx.close(a[::-1], b, rtol=1e-6, atol=CLOSE, what="reversed order of elements")
    by_time = np.argsort(time, kind="stable")
    for a, b in zip(em.eval_qdlatlon_with_base_vectors(*(v[by_time] for v in (lat, lon, rad, time)), path), full):
        ctx.close(a, b[by_time], rtol=1e-6, atol=CLOSE, what="elements sorted by time")
    compare_exact(ctx, full, lat, lon, rad, time, path, f"{case}")


# --- values by definition --------------------------------------------------------------------------

EPOCHS = {"A": [2000.0, 2005.0, 2012.5], "B": [2004.0], "C": [2000.0, 2005.0, 2012.5], "D": [1990.0, 2002.0], "E": [2001.0, 2003.0, 2010.0, 2010.5],
          "F": [2000.0, 2000.5], "latest": [1980.0, 1985.0, 2025.0, 2030.0], "old": [1995.0, 2000.0, 2015.0]}


def epoch_moments(nodes):
    out = list(nodes) + [0.5 * (a + b) for a, b in zip(nodes, nodes[1:])] + [nodes[0] + 0.75, nodes[-1] - 0.01]
    return out + [nodes[0] - 0.01, nodes[0] - 50, 0.0, -1e6, nodes[-1] + 0.01, nodes[-1] + 77, 1e6, INF, -INF]


@group("C17", "values by definition", lambda tier: [[f, t] for f in EPOCHS for t in range(len(epoch_moments(EPOCHS[f])))], chunk=1)
def definition(ctx, case):
    file, k = case
    time = epoch_moments(EPOCHS[file])[k]
    path = make_files()[file]
    lats = np.linspace(-88.0, 88.0, 23) if not ctx.thorough else np.linspace(-89.5, 89.5, 90)
    lat, lon, rad = (v.ravel() for v in np.meshgrid(lats, np.arange(-180.0, 361.0, 30.0 if not ctx.thorough else 12.0), [6371.2, 6471.0, 7171.2], indexing="ij"))
    times = np.full(lat.shape, time)
    full = em.eval_qdlatlon_with_base_vectors(lat, lon, rad, times, path)
    plain = em.eval_qdlatlon(lat, lon, rad, times, path)
    ctx.count(2 * lat.size)
    ctx.state(file, time)
    if not compare_exact(ctx, full, lat, lon, rad, times, path, f"{case} {time}"):
        return
    for a, b in zip(plain, full):
        ctx.close(a, b, rtol=1e-6, atol=CLOSE, what="coordinates with and without vectors")
    clamped = np.full(lat.shape, min(max(time, EPOCHS[file][0]), EPOCHS[file][-1]))
    for a, b in zip(em.eval_qdlatlon_with_base_vectors(lat, lon, rad, clamped, path), full):
        ctx.close(a, b, rtol=1e-6, atol=CLOSE, what="nearest epoch of the file")


# --- files which appear, disappear and get repaired -------------------------------------------------

FILE_STATES = ("missing", "directory", "cut.txt", "words.txt", "empty.txt", "A", "C")


@group("C17", "changing files", lambda tier: [[list(p), b, v] for p in itertools.product(FILE_STATES, repeat=3 if tier == "quick" else 4) for b in (0, 1) for v in (0, 1)], chunk=16)
def changing(ctx, case):
    """ each call sees the file as it is, not as it was at an earlier attempt

    A file read before may be remembered by its name as long as no other file
    is read (not covered), nothing else may.
    """
    sequence, between, vectors = case
    make_files()
    func = em.eval_qdlatlon_with_base_vectors if vectors else em.eval_qdlatlon
    args = (40.0, 50.0, 6800.0, 2006.0)
    with tempfile.TemporaryDirectory(prefix="c17-") as root:
        path = os.path.join(root, "q.txt")
        func(*args, FILES["B"])
        loaded = False                  # the name may be remembered
        for k, state in enumerate(sequence):
            if os.path.isdir(path):
                os.rmdir(path)
            elif os.path.exists(path):
                os.remove(path)
            if state == "directory":
                os.mkdir(path)
            elif state != "missing":
                shutil.copy(FILES[state], path)
            what = f"{sequence[:k + 1]}, {'another file read between' if between else 'no other file read'}"
            try:
                got = func(*args, path)
            except OSError:
                got = "no file"
            except RuntimeError:
                got = "not read"
            ctx.count(1)
            if state in ("missing", "directory"):
                ctx.require(isinstance(got, str) and got == "no file", f"{what}: {got!r} instead of a missing file")
            elif loaded:
                pass                    # possibly the remembered content
            elif state in ("A", "C"):
                if ctx.require(not isinstance(got, str), f"{what}: {got!r}"):
                    want = exact(FILES[state], *([v] for v in args))
                    for a, b, name in zip(got, want[:2], ("latitude", "longitude")):
                        ctx.close(float(a), float(b[0]), 0, 2e-3, what=f"{what}: {name}")
            else:
                ctx.require(isinstance(got, str) and got == "not read", f"{what}: {got!r} instead of an error")
            loaded = loaded or state in ("A", "C")
            if between:
                func(*args, FILES["B"])
                loaded = False
        ctx.state(*sequence, between)
