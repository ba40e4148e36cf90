""" C19 - no input, and no allocation failure, can corrupt memory or end the process

Runs on a build with the address sanitizer (C, Fortran) and bounds checks. """
import copy
import ctypes
import datetime
import decimal
import fractions
import gc
import itertools
import os
import sys
import tempfile
import numpy as np
import eoxmagmod as em
from eoxmagmod import _pymm, _pyqd, _pysunpos, _pytimeconv, time_util
from eoxmagmod import data as bundled
from ..core import group
from .. import catalog, layouts
from ..catalog import NAN, INF

LIBC = ctypes.CDLL(None)
try:
    ALLOCATED = LIBC.__sanitizer_get_current_allocated_bytes
    ALLOCATED.restype = ctypes.c_size_t
except AttributeError:      # a build without the sanitizer (interactive use)
    ALLOCATED = None


# --- the functions ----------------------------------------------------------------------------

class Target:
    def __init__(self, name, func, args, native=False, nested=False, skip=()):
        """ args: {keyword: valid value}; nested arguments cannot be passed by keyword """
        self.name, self.func, self.args, self.native, self.nested, self.skip = name, func, args, native, nested, skip


def make_targets():
    out = []
    r = catalog.ref
    loc = np.array([(10.0, 20.0, 6371.2), (-55.0, 200.0, 7000.0)])
    coef = r.generic_coef(2, salt=31, n0=True)
    leg, dleg = em.legendre(np.array([10.0, -55.0]), 2)
    rrp, lcs = em.relradpow(np.array([6400.0, 7000.0]), 2), em.loncossin(np.array([10.0, 300.0]), 2)
    nm = catalog.nm_full(2).astype("i4")
    ct, cgh = np.array([0.0, 10.0, 30.0]), r.generic(len(nm), 3, salt=41)
    cab = r.generic(len(nm), 3, 2, 2, salt=44)
    two, vec = np.array([4.0, 17.0]), np.array([(1.0, 2.0, -3.0), (4.0, 0.5, 2.0)])

    def add(name, func, args, native=True, **kw):
        out.append(Target(name, func, args, native, **kw))

    add("bisect", _pymm.bisect, {"v": ct, "x": two, "side": 0})
    add("interp", _pymm.interp, {"time": two, "time0": ct, "coeff0": cgh, "kind": 1, "extrapolate": True})
    add("interp C0", _pymm.interp, {"time": two, "time0": ct[:1], "coeff0": cgh[:, :1], "kind": 0, "extrapolate": False})
    add("fourier2d", _pymm.fourier2d, {"time1": two, "time2": two, "coeff": cab, "min_degree1": -1, "min_degree2": 0, "scale1": 1.0, "scale2": 2.0})
    add("convert", _pymm.convert, {"arr_in": loc, "coord_type_in": 1, "coord_type_out": 0})
    add("convert back", _pymm.convert, {"arr_in": loc, "coord_type_in": 2, "coord_type_out": 1})
    for name in ("vrot_sph2cart", "vrot_cart2sph"):
        add(name, getattr(_pymm, name), {"arr_in": vec, "arr_lat": two, "arr_lon": two})
    add("vrot_sph2geod", _pymm.vrot_sph2geod, {"arr_in": vec, "arr_dlat": two})
    add("loncossin", _pymm.loncossin, {"longitude": two, "degree": 3, "fast_alg": False})
    add("relradpow", _pymm.relradpow, {"radius": loc[:, 2], "degree": 3, "reference_radius": 6371.2, "is_internal": False})
    add("legendre", _pymm.legendre, {"latitude": two, "degree": 3})
    add("spharpot", _pymm.spharpot, {"radius": loc[:, 2], "coef": coef, "leg_p": leg, "rpp": rrp, "lcs": lcs, "degree": 2})
    add("sphargrd", _pymm.sphargrd, {"latitude": two, "coef": coef, "leg_p": leg, "leg_dp": dleg, "rrp": rrp, "lcs": lcs, "is_internal": True, "degree": 2})
    common = {"coord_type_in": 1, "coord_type_out": 0, "mode": 3, "is_internal": True, "scale_potential": 2.0, "scale_gradient": np.array([1.0, 2.0, -1.0])}
    add("sheval", _pymm.sheval, dict({"arr_x": loc, "coef": coef, "degree": 2}, **common))
    add("sheval default", _pymm.sheval, {"arr_x": loc, "coef": coef})
    add("shevaltemp", _pymm.shevaltemp, dict({"arr_t": two, "arr_x": loc, "coef_set_list": [(ct, cgh, nm, 2)]}, **common))
    add("shevaltemp set", lambda coef_t, coef_gh, coef_nm, spline_order: _pymm.shevaltemp(
        two, loc, [(ct, cgh, nm, 1), (coef_t, coef_gh, coef_nm, spline_order)], 1, 1, mode=3),
        {"coef_t": ct, "coef_gh": cgh, "coef_nm": nm, "spline_order": 2}, nested=True)
    add("sheval2dfs", _pymm.sheval2dfs, dict({"arr_t1": two, "arr_t2": two, "arr_x": loc, "coef_set": (cab, nm, -1, 0, 6.28, 0.25)}, **common))
    add("sheval2dfs set", lambda coef_ab, coef_cm, min_degree1, min_degree2, scale1, scale2: _pymm.sheval2dfs(
        two, two, loc, (coef_ab, coef_cm, min_degree1, min_degree2, scale1, scale2), 1, 1, mode=3),
        {"coef_ab": cab, "coef_cm": nm, "min_degree1": -1, "min_degree2": 0, "scale1": 6.28, "scale2": 0.25}, nested=True)
    sun = {"time_mjd2k": two, "lat": two, "lon": two, "rad": loc[:, 2], "dtt": two}
    add("_sunpos", _pysunpos.sunpos, sun)
    add("_sunpos_original", _pysunpos.sunpos_original, {"time_mjd2k": two, "lat": two, "lon": two, "rad": loc[:, 2], "dtt": two, "pres": two, "temp": two}, )
    for name in ("mjd2000_to_decimal_year", "mjd2000_to_year_fraction"):
        add("_" + name, lambda time, f=getattr(_pytimeconv, name): f(time), {"time": two})
    add("_decimal_year_to_mjd2000", lambda time: _pytimeconv.decimal_year_to_mjd2000(time), {"time": two + 2000})
    fname = bundled.APEX_LATEST
    add("_eval_qdlatlon", _pyqd.eval_qdlatlon, {"gclat": two, "gclon": two, "gcrad": loc[:, 2], "time": two + 2000, "fname": fname, "eval_base": True})
    add("_eval_mlt", _pyqd.eval_mlt, {"qdlon": two, "time": two})
    add("_eval_subsol", _pyqd.eval_subsol, {"time": two})

    # functions and classes written in Python
    py = lambda *a, **k: add(*a, native=False, **k)
    py("vnorm", em.vnorm, {"arr": vec})
    py("vincdecnorm", em.vincdecnorm, {"arr": vec})
    py("vrotate", em.vrotate, {"arr": vec, "coord_in": loc, "coord_out": em.convert(loc, 1, 0), "coord_type_in": 1, "coord_type_out": 0})
    for name in ("mjd2000_to_decimal_year", "mjd2000_to_year_fraction"):
        py(name, lambda time, f=getattr(em, name): f(time), {"time": two})
    py("decimal_year_to_mjd2000", lambda time: em.decimal_year_to_mjd2000(time), {"time": two + 2000})
    py("simple to decimal year", time_util.mjd2000_to_decimal_year_simple, {"mjd2000": two})
    py("simple to mjd2000", time_util.decimal_year_to_mjd2000_simple, {"decimal_year": two + 2000})
    py("datetime to decimal year", lambda value: time_util.datetime_to_decimal_year(value), {"value": datetime.datetime(2001, 2, 3, 4)})
    py("eval_qdlatlon", em.eval_qdlatlon, {"gclat": two, "gclon": two, "gcrad": loc[:, 2], "time": two + 2000, "fname": fname})
    py("eval_qdlatlon_with_base_vectors", em.eval_qdlatlon_with_base_vectors, {"gclat": two, "gclon": two, "gcrad": loc[:, 2], "time": two + 2000})
    py("eval_mlt", em.eval_mlt, {"qdlon": two, "time": two})
    py("eval_subsol", em.eval_subsol, {"time": two})
    py("sunpos", em.sunpos, sun)
    py("sunpos_original", em.sunpos_original, {"time_mjd2k": two, "lat": two, "lon": two, "rad": loc[:, 2], "dtt": two, "pres": two, "temp": two})
    py("dipole matrix", em.get_dipole_rotation_matrix, {"latitude": 80.0, "longitude": -70.0})
    py("convert_to_dipole", em.convert_to_dipole, {"coords": loc, "lat_ngp": 80.0, "lon_ngp": -70.0, "coord_type_in": 1})
    py("vrot_from_dipole", em.vrot_from_dipole, {"vectors": vec, "lat_ngp": 80.0, "lon_ngp": -70.0, "lat_dipole": two, "lon_dipole": two,
                                                 "lat_out": two, "lon_out": two, "coord_type_out": 0})
    py("sheval_dipole", em.sheval_dipole, dict({"arr_in": loc, "coef": coef, "lat_ngp": 80.0, "lon_ngp": -70.0, "degree": 2}, **common))
    py("magnetic time", em.mjd2000_to_magnetic_universal_time, {"mjd2000": two, "lat_ngp": 80.0, "lon_ngp": -70.0, "lat_sol": two, "lon_sol": two})
    full = catalog.nm_full(2)
    py("Constant", lambda indices, coefficients, **k: use(catalog.Constant(indices, coefficients, **k)),
       {"indices": full, "coefficients": r.generic(len(full)), "is_internal": True, "validity_start": -5.0, "validity_end": 50.0})
    py("Linear", lambda indices, coefficients, times, **k: use(catalog.Linear(indices, coefficients, times, **k)),
       {"indices": full, "coefficients": r.generic(len(full), 3), "times": ct, "spline_order": 2, "validity_start": 0.0, "validity_end": 50.0})
    py("LinearDY", lambda indices, coefficients, times, **k: use(catalog.LinearDY(indices, coefficients, times, **k)),
       {"indices": full, "coefficients": r.generic(len(full), 3), "times": 2000 + ct, "spline_order": 1})
    py("MIO", lambda indices, coefficients, ps_extent, **k: use(catalog.MIO(indices, coefficients, ps_extent, **k), mio=True),
       {"indices": full, "coefficients": r.generic(len(full), 3, 2, 2), "ps_extent": (0, 1, -1, 1), "is_internal": False})
    py("Composed", lambda first, second: use(catalog.Composed(first, second)), {"first": catalog.linear(), "second": catalog.constant()})
    py("Combined", lambda first, second: use(catalog.Combined(first, second)), {"first": catalog.linear(), "second": catalog.constant()})
    py("DipoleModel", lambda coefficients, north_pole: catalog.DipoleModel(coefficients, north_pole).eval(two, loc),
       {"coefficients": catalog.linear(), "north_pole": (80.0, -70.0)})
    for name in ("linear", "composed", "combined", "nested", "dipole", "sum"):
        py("model " + name, catalog.MODELS[name].eval, {
            "time": two, "location": loc, "input_coordinate_system": 1, "output_coordinate_system": 0, "scale": np.array([1.0, 2.0, 3.0]),
            "min_degree": 1, "max_degree": 2})
        if name != "sum":
            py("coefficients " + name, catalog.MODELS[name].coefficients, {"time": two, "min_degree": 1, "max_degree": 2})
    for name in ("mio external", "mio primary"):
        py("model " + name, catalog.MODELS[name].eval, {
            "time": two, "location": loc, "input_coordinate_system": 1, "output_coordinate_system": 0, "f107": two, "lat_sol": two, "lon_sol": two,
            "max_degree": 2})
    py("push", push, {"model": catalog.MODELS["linear"], "scale": 2.0, "min_degree": 1})
    py("trace_field_line", lambda **k: em.trace_field_line(trace_options={"max_steps": 2, "step": 500.0}, **k),
       {"model": catalog.MODELS["linear"], "time": 4.0, "point": loc[0], "input_coordinate_system": 1, "output_coordinate_system": 1})
    return out


def use(coefs, mio=False):
    """ construct, read and evaluate """
    coefs.validity, coefs.degree, coefs.min_degree
    if mio:
        return coefs(4.0, mut=3.0, lat_sol=1.0, lon_sol=2.0)
    model = catalog.SHModel(coefs)
    return coefs(4.0), model.eval(np.array([4.0, 10.0]), np.array([(1.0, 2.0, 6400.0), (3.0, 4.0, 7000.0)]))


def push(model, **kw):
    total = em.ComposedGeomagneticModel()
    total.push(model, **kw)
    total.push(catalog.MODELS["constant"])
    return total.eval(4.0, (1.0, 2.0, 6400.0))


TARGETS = {}


def load():
    if not TARGETS:
        for t in make_targets():
            TARGETS[t.name] = t
    return TARGETS


def prepare(tier):
    load()


# --- the menu of malformed values -----------------------------------------------------------------

class Raising:
    """ every way of reading the value fails """
    def _fail(self, *args, **kwargs):
        raise ZeroDivisionError("no value")
    __array__ = __float__ = __index__ = __int__ = __bool__ = __len__ = __getitem__ = __iter__ = __complex__ = __str__ = __eq__ = __lt__ = __hash__ = _fail
    __getattr__ = __array_interface__ = property(_fail)
    __fspath__ = __call__ = __contains__ = _fail


class BadBool:
    def __bool__(self):
        raise ZeroDivisionError("no truth")


class Lying:
    """ a sequence with a wrong length """
    def __init__(self, data, size):
        self.data, self.size = data, size

    def __len__(self):
        return self.size

    def __getitem__(self, index):
        return self.data[index]


class Returns:
    def __init__(self, value):
        self.value = value

    def __array__(self, dtype=None, copy=None):
        return self.value() if callable(self.value) else self.value

    def __float__(self):
        return self.value

    __index__ = __float__


class Interface:
    def __init__(self, **kw):
        self.__array_interface__ = kw


class Sub(np.ndarray):
    def __array_finalize__(self, obj):
        self.tag = getattr(obj, "tag", None)

    def __array_wrap__(self, arr, context=None, return_scalar=False):
        return arr.view(Sub)


class BadSub(np.ndarray):
    def __array_finalize__(self, obj):
        if obj is not None and type(obj) is BadSub:
            raise ZeroDivisionError("no copies")


class FloatSub(float):
    def __float__(self):
        raise ZeroDivisionError("no float")


class IntSub(int):
    def __index__(self):
        raise ZeroDivisionError("no index")

    __int__ = __index__


def endless():
    out = []
    out.append(out)
    return out


def deep():
    out = 1.0
    for _ in range(200):
        out = [out]
    return out


def misaligned(a):
    a = np.asarray(a)
    raw = np.zeros(a.nbytes + 1, "u1")
    out = raw[1:].view(a.dtype).reshape(a.shape)
    out[...] = a
    return out


def hostile(a):
    """ conversion of an element changes the list which contains it """
    items = list(np.asarray(a).ravel())

    class Clearing:
        def __float__(self):
            items.clear()
            gc.collect()
            return 1.0

        def __array__(self, dtype=None, copy=None):
            items.clear()
            return np.array(1.0)
    items[0:1] = [Clearing()]
    return items


NUMBERS = [
    None, True, 0, 1, -1, 2, 3, 5, 1000, 46340, 46341, 65535, 65536, 2**31 - 2, 2**31 - 1, 2**31, 2**32, 2**32 + 2, 2**63 - 1, 2**63, 2**64 + 1,
    -2**31, -2**31 - 1, -2**63, 10**400, 0.5, 1.0, NAN, INF, -INF, 1e308, -1e308, 5e-324, 1e19, -1e10, -0.0, 1j,
    "", "x", "1.0", "nan", "\udcff", "a\0b", "\u0660", "x" * 5000, b"", b"abc", b"\0" * 24, Ellipsis, NotImplemented,
]
SIMPLE = [
    ("bytearray", lambda: bytearray(b"12345678")), ("memoryview", lambda: memoryview(b"12345678" * 3)), ("Decimal", lambda: decimal.Decimal("1.5")),
    ("Fraction", lambda: fractions.Fraction(1, 3)), ("object", object), ("type", lambda: int), ("slice", lambda: slice(3)), ("range", lambda: range(3)),
    ("set", lambda: {1.0, 2.0}), ("dict", lambda: {"a": 1.0}), ("generator", lambda: (x for x in (1.0, 2.0))), ("function", lambda: len),
    ("float32", lambda: np.float32(1.5)), ("int8", lambda: np.int8(1)), ("bool_", lambda: np.bool_(True)), ("str_", lambda: np.str_("1.0")),
    ("datetime", lambda: datetime.datetime(2001, 1, 1)), ("date", lambda: datetime.date(2001, 1, 1)), ("aware", lambda: datetime.datetime(2001, 1, 1, tzinfo=datetime.timezone.utc)),
    ("datetime64", lambda: np.datetime64("2001-01-01")), ("NaT", lambda: np.datetime64("NaT")), ("timedelta64", lambda: np.timedelta64(3, "D")), ("void", lambda: np.void(b"12345678")),
    ("raising", Raising), ("bad truth", BadBool), ("bad float", lambda: FloatSub(1.0)), ("bad int", lambda: IntSub(1)), ("array returns none", lambda: Returns(None)),
    ("array returns list", lambda: Returns([1.0])), ("array returns strings", lambda: Returns(np.array(["a"]))), ("array returns itself", lambda: (lambda r: setattr(r, "value", r) or r)(Returns(0))),
    ("array raises", lambda: Returns(lambda: 1 / 0)), ("interface", lambda: Interface(shape=(3,), typestr="<f8", version=3)),
    ("broken interface", lambda: Interface(shape=(-3,), typestr="<f8", data=(0, True), version=3)), ("list", lambda: []), ("nested empty", lambda: [[], []]), ("ragged", lambda: [[1.0, 2.0], [3.0]]),
    ("strings", lambda: ["a", "b"]), ("nones", lambda: [None, None]), ("mixed", lambda: [1.0, "x", None]), ("endless", endless), ("deep", deep), ("tuple", lambda: ()),
    ("longer than said", lambda: Lying([1.0, 2.0, 3.0], 1)), ("shorter than said", lambda: Lying([1.0, 2.0, 3.0], 5)), ("negative length", lambda: Lying([1.0], -1)),
    ("huge length", lambda: Lying([1.0], 2**62)), ("list of raising", lambda: [Raising(), Raising()]), ("module", lambda: np), ("exception", lambda: ValueError("x")),
    ("zero-dimensional object", lambda: np.array(None)), ("ndim 32", lambda: np.zeros((1,) * 32)), ("ndim 31 of 3", lambda: np.zeros((1,) * 31 + (3,))),
    ("huge broadcast", lambda: np.broadcast_to(np.zeros(3), (10**12, 3))), ("huge scalar broadcast", lambda: np.broadcast_to(np.zeros(()), (2**59,))), ("huge empty", lambda: np.zeros((2**20, 0))),
    ("empty times three", lambda: np.zeros((0, 3))), ("none times two", lambda: np.zeros((0, 2))), ("empty tables", lambda: np.zeros((2, 0, 0, 2))), ("matrix", lambda: np.matrix([[1.0, 2.0, 3.0]])),
]
SHAPES = [(), (0,), (1,), (2,), (3,), (4,), (6,), (0, 3), (3, 0), (1, 1), (2, 3), (3, 2), (2, 2), (1, 3), (4, 3), (1, 2, 3), (2, 1, 3), (2, 2, 3), (2, 6, 2), (0, 2, 3), (2, 0, 3), (5, 1), (8, 3, 2, 2),
          (2, 8, 3), (1,) * 7, (2, 1, 1, 1, 3)]
FILLS = [("nan", NAN), ("inf", INF), ("-inf", -INF), ("1e308", 1e308), ("5e-324", 5e-324), ("-1e19", -1e19), ("0", 0.0), ("1e9", 1e9), ("-3", -3.0), ("2^31", 2.0**31), ("90", 90.0), ("-2^63", -2.0**63)]
DTYPES = ["?", "i1", "u1", "i4", "u8", "f2", "f4", ">f8", "g", "c16", "O", "U3", "S3", "V8", "M8[D]", "m8[s]", [("a", "f8")]]


def filled(base, value):
    a = np.asarray(base)
    if a.dtype.kind in "iu":
        value = int(value) if np.isfinite(value) else -2**31
        return np.full(a.shape, value)
    return np.full(a.shape, value)


def ones(shape, base):
    a = np.asarray(base, dtype=float)
    flat = a.ravel() if a.size else np.zeros(1)
    return np.resize(flat, shape)


def array_like(value):
    return isinstance(value, np.ndarray)


MENU = {}


def menu():
    """ name: function of the valid value -> malformed value """
    if MENU:
        return MENU
    for v in NUMBERS:
        MENU[f"value {str(v)[:20]!r} {type(v).__name__} {len(str(v)) if not isinstance(v, int) else ''}"] = lambda base, v=v: v
    for name, make in SIMPLE:
        MENU[name] = lambda base, make=make: make()
    for shape in SHAPES:
        MENU[f"shape {shape}"] = lambda base, shape=shape: ones(shape, base)
        MENU[f"nan shape {shape}"] = lambda base, shape=shape: np.full(shape, NAN)
    for name, v in FILLS:
        MENU["filled " + name] = lambda base, v=v: filled(base, v)
        MENU["last " + name] = lambda base, v=v: last(base, v)
    for d in DTYPES:
        MENU[f"dtype {d}"] = lambda base, d=d: np.asarray(base).astype(d)
    MENU.update({
        "shorter": lambda b: np.asarray(b)[:-1], "longer": lambda b: np.concatenate([np.asarray(b), np.asarray(b)]), "narrower": lambda b: np.asarray(b)[..., :-1],
        "wider": lambda b: np.concatenate([np.asarray(b)] * 2, -1), "new axis": lambda b: np.asarray(b)[None], "new last axis": lambda b: np.asarray(b)[..., None],
        "transposed": lambda b: np.asarray(b).T, "reversed": lambda b: np.asarray(b)[::-1], "reversed last": lambda b: np.asarray(b)[..., ::-1],
        "misaligned": misaligned, "read-only": lambda b: readonly(b), "zero strides": lambda b: np.broadcast_to(np.asarray(b).ravel()[0], np.shape(b)),
        "strided": lambda b: np.repeat(np.asarray(b), 2, 0)[::2], "masked": lambda b: np.ma.masked_array(b, mask=np.ones(np.shape(b))), "subclass": lambda b: np.asarray(b).view(Sub),
        "bad subclass": lambda b: np.asarray(b).view(BadSub), "list of it": lambda b: [b], "tuple of it": lambda b: (b,), "nested list": lambda b: np.asarray(b).tolist(), "dict of it": lambda b: {"x": b},
        "hostile": hostile, "int list": lambda b: np.asarray(b).astype(int).tolist(), "unsorted": lambda b: np.roll(np.asarray(b), 1), "repeated": lambda b: np.full(np.shape(b), np.asarray(b).ravel()[0]),
        "halves": lambda b: np.asarray(b) + 0.5, "negative": lambda b: -np.asarray(b), "times 100": lambda b: np.asarray(b) * 100,
    })
    return MENU


def last(base, value):
    a = np.array(base, dtype=float)
    a.ravel()[-1:] = value
    if a.size:
        a.flat[a.size - 1] = value
    return a


def readonly(b):
    a = np.array(b)
    a.setflags(write=False)
    return a


# --- verdicts -----------------------------------------------------------------------------------------

def attempt(ctx, what, func, args, kwargs):
    """ one call; a returned value or an ordinary exception """
    try:
        result = func(*args, **kwargs)
    except SystemError as exc:
        ctx.fail(f"{what}: {exc} (caused by {exc.__cause__!r})")
        return "bad"
    except MemoryError:
        return "MemoryError"
    except Exception as exc:
        return type(exc).__name__
    touch(result)
    return "value"


def touch(result):
    """ read all of the returned data """
    if isinstance(result, np.ndarray):
        if result.dtype.kind in "fiu" and result.size < 10**7:
            result.tobytes()
    elif isinstance(result, (tuple, list)):
        for item in result:
            touch(item)


SHARED = [np.dtype("f8"), np.dtype("i4"), np.dtype("i8"), np.dtype("O"), np.ndarray]


def references(values):
    return [sys.getrefcount(v) for v in values]


def growth(call, count):
    before, refs = (ALLOCATED() if ALLOCATED else 0), references(SHARED)
    for _ in range(count):
        call()
    return (ALLOCATED() if ALLOCATED else 0) - before, max(b - a for a, b in zip(refs, references(SHARED)))


def leaks(ctx, what, call, repeats=8, refs=True):
    """ repeated calls do not accumulate memory, or references to the shared
    objects (refs=False: NumPy itself loses references to its built-in types
    in failing conversions and in dot()) """
    for _ in range(2):
        call()
    grows = lambda size, more, count: size >= 12 * count or (refs and more >= count)
    if not grows(*growth(call, repeats), repeats):
        return True
    rounds = []
    for count in (16, 64, 256, 1024, 4096):
        gc.collect()
        before = ALLOCATED() if ALLOCATED else 0
        size, more = growth(call, count)
        if size >= 12 * count:
            gc.collect()
            size = ALLOCATED() - before
        rounds.append((count, size, more))
        if not grows(size, more, count):
            return True
    ctx.fail(f"{what}: repeated calls leave memory or references behind (calls, bytes, references): {rounds}")
    return False


FROZEN = False


def freeze():
    """ later collections look at new objects only """
    global FROZEN
    if not FROZEN:
        gc.collect()
        gc.freeze()
        FROZEN = True


def held(ctx, what, func, args, kwargs):
    """ the call leaves the reference counts of its arguments as they were """
    values = list(args) + list(kwargs.values())
    before = references(values)
    outcome = attempt(ctx, what, func, args, kwargs)
    after = references(values)
    if before != after:
        gc.collect()
        after = references(values)
    ctx.compared += 1
    if after != before:
        ctx.fail(f"{what}: reference counts {before} of the arguments became {after}")
    return outcome


# --- malformed arguments ---------------------------------------------------------------------------------

def malformed_cases(tier):
    load()
    for t in TARGETS.values():
        for name in t.args:
            yield [t.name, name]


@group("C19", "malformed arguments", malformed_cases, chunk=1)
def malformed(ctx, case):
    target, name = load()[case[0]], case[1]
    freeze()
    for label, make in menu().items():
        if target.native or not label.startswith("huge"):   # Python functions really go through all the items
            run_item(ctx, target, {name: (label, make)}, True)


def run_item(ctx, target, changes, repeated, crumb=True):
    def arguments():
        kwargs = dict(target.args)
        for name, (_, make) in changes.items():
            kwargs[name] = make(kwargs[name])
        return kwargs
    what = f"{target.name}({', '.join(f'{k}={v[0]}' for k, v in changes.items())})"
    try:
        kwargs = arguments()
    except Exception:
        return
    if crumb:
        ctx.crumb(what)
    hostile = any(label == "hostile" for label, _ in changes.values())
    outcome = (attempt if hostile else held)(ctx, what, target.func, (), kwargs)
    ctx.observe(outcome)
    ctx.count(1)
    if repeated and outcome != "bad":
        fresh = any(label in ("generator", "hostile") for label, _ in changes.values())
        call = lambda: attempt(ctx, what, target.func, (), arguments() if fresh else kwargs)
        leaks(ctx, what, call, refs=target.native and outcome == "value")


# --- several malformed arguments ---------------------------------------------------------------------------

PAIR_LABELS = [f"shape {s}" for s in SHAPES if len(s) < 7 and s not in ((6,), (5, 1))] + [
    "value 'None' NoneType 4", "value '0' int ", "value '-1' int ", "value '3' int ", "value '2147483647' int ", "filled nan", "filled inf", "filled 1e308", "last -3", "shorter", "longer", "narrower",
    "wider", "new axis", "new last axis", "transposed", "zero strides", "strided", "empty tables", "list"]


def pair_cases(tier):
    for t in load().values():
        if t.native or tier == "thorough":
            for a, b in itertools.combinations(t.args, 2):
                yield [t.name, a, b]


@group("C19", "two malformed arguments", pair_cases, chunk=2)
def pairs(ctx, case):
    target = load()[case[0]]
    freeze()
    entries = [(label, menu()[label]) for label in PAIR_LABELS]
    for one in entries:
        ctx.crumb(f"{target.name}: {case[1]}={one[0]}")
        for two in entries:
            run_item(ctx, target, {case[1]: one, case[2]: two}, False, crumb=False)


TRIPLE_LABELS = ["shape ()", "shape (0,)", "shape (1,)", "shape (3,)", "shape (0, 3)", "shape (2, 3)", "shape (3, 2)", "shape (2, 2, 3)", "shape (2, 6, 2)", "value 'None' NoneType 4", "value '0' int ",
                 "value '-1' int ", "value '3' int ", "value '2147483647' int ", "filled nan", "filled 1e308", "shorter", "longer", "narrower", "wider", "new axis", "strided"]


def triple_cases(tier):
    if tier == "thorough":
        for t in load().values():
            if t.native:
                for names in itertools.combinations(t.args, 3):
                    yield [t.name] + list(names)


@group("C19", "three malformed arguments", triple_cases, chunk=2)
def triples(ctx, case):
    target = load()[case[0]]
    freeze()
    entries = [(label, menu()[label]) for label in TRIPLE_LABELS]
    for one, two in itertools.product(entries, repeat=2):
        ctx.crumb(f"{target.name}: {case[1]}={one[0]}, {case[2]}={two[0]}")
        for three in entries:
            run_item(ctx, target, {case[1]: one, case[2]: two, case[3]: three}, False, crumb=False)


# --- ways of passing the arguments -------------------------------------------------------------------------

@group("C19", "ways of passing arguments", lambda tier: [[t.name] for t in load().values()], chunk=1)
def passing(ctx, case):
    target = load()[case[0]]
    freeze()
    names = list(target.args)
    values = list(target.args.values())
    variants = [((), {})]
    for k in range(len(names) + 1):
        variants.append((tuple(values[:k]), {}))
        variants.append((tuple(values[:k]), dict(zip(names[k:], values[k:]))))
        variants.append((tuple(values[:k + 1]), dict(zip(names[k:], values[k:]))))      # given twice
        variants.append(((), {n: v for n, v in target.args.items() if n != names[min(k, len(names) - 1)]}))
        variants.append(((), {(n + "x" if i == k else n): v for i, (n, v) in enumerate(target.args.items())}))
        variants.append(((), {(n.encode().decode("latin1") + "\0" if i == k else n): v for i, (n, v) in enumerate(target.args.items())}))
    for extra in range(1, 8):
        variants.append((tuple(values) + (None,) * extra, {}))
        variants.append((tuple(values) + (1,) * extra, {}))
    variants += [(tuple(values[::-1]), {}), ((), dict(zip(names, values[::-1]))), (tuple(values[1:]), {}), (tuple(values[:1] * 20), {}), ((), {"": 1}), ((), {"\udcff": 1})]
    for i, j in itertools.combinations(range(len(values)), 2):
        mixed = list(values)
        mixed[i], mixed[j] = mixed[j], mixed[i]
        variants.append((tuple(mixed), {}))
        variants.append(((), dict(zip(names, mixed))))
        mixed[j] = mixed[i]
        variants.append(((), dict(zip(names, mixed))))      # one object twice
    for args, kwargs in variants:
        what = f"{target.name} with {len(args)} positional arguments and {list(kwargs)}"
        ctx.crumb(what)
        outcome = held(ctx, what, target.func, args, kwargs)
        ctx.observe(outcome)
        ctx.count(1)
        if outcome != "bad":
            leaks(ctx, what, lambda: attempt(ctx, what, target.func, args, kwargs), repeats=4, refs=target.native and outcome == "value")


# --- valid calls of every size ----------------------------------------------------------------------------

def size_cases(tier):
    top = 66 if tier == "quick" else 130
    for degree in list(range(top)) + [100, 200, 400]:
        yield ["degree", degree]
    for sets in itertools.product(range(4), repeat=3):
        yield ["sets", list(sets)]
    for count in (1, 2, 3, 15, 16, 17, 18, 40, 127, 128, 129, 200):
        yield ["many sets", count]
    for lo1, lo2 in itertools.product(range(-4, 5), repeat=2):
        yield ["fourier", lo1, lo2]
    for count in range(6):
        yield ["nodes", count]
    for shape in [(), (0,), (1,), (2,), (3,), (0, 2), (2, 0), (2, 2), (1, 3), (3, 1, 2), (5, 1, 1, 1), (1,) * 14, (1,) * 15, (1,) * 20, (1,) * 31]:
        yield ["shape", list(shape)]
    for name in TARGETS:
        yield ["layout", name]
    for index in range(len(catalog.entries())):
        yield ["entry", index]


@group("C19", "valid calls of every size", size_cases, chunk=2)
def sizes(ctx, case):
    freeze()
    SIZES[case[0]](ctx, *case[1:])


def valid(ctx, what, func, *args, repeats=0, **kwargs):
    ctx.crumb(what)
    outcome = held(ctx, what, func, args, kwargs)
    ctx.count(1)
    ctx.observe(outcome)
    if repeats and outcome != "bad":
        leaks(ctx, what, lambda: attempt(ctx, what, func, args, kwargs), repeats, refs=False)
    return outcome


def degree_sizes(ctx, degree):
    r = catalog.ref
    lat, lon, rad = np.array([10.0, -90.0, 90.0, 1e-9, NAN]), np.array([20.0, 180.0, -400.0, 0.0, INF]), np.array([6371.2, 7000.0, 6000.0, 1.0, NAN])
    loc = np.stack([lat, lon, rad], -1)
    n = r.nterms(degree)
    coef = np.resize(r.generic(997, 2, salt=900), (n, 2))
    p, dp = _pymm.legendre(lat, degree)
    valid(ctx, f"legendre {degree}", _pymm.legendre, lat, degree, repeats=1)
    powers, trig = _pymm.relradpow(rad, degree), _pymm.loncossin(lon, degree)
    for flag in (True, False):
        valid(ctx, f"relradpow {degree}", _pymm.relradpow, rad, degree, 6371.2, flag)
        valid(ctx, f"loncossin {degree}", _pymm.loncossin, lon, degree, flag)
        for use in sorted({0, 1, degree // 2, max(degree - 1, 0), degree, degree + 1, -1}):
            valid(ctx, f"spharpot {degree} {use}", _pymm.spharpot, rad, coef, p, powers, trig, use)
            valid(ctx, f"sphargrd {degree} {use}", _pymm.sphargrd, lat, coef, p, dp, powers, trig, use, flag)
            for kin, kout, mode in ((0, 1, 3), (1, 0, 2), (2, 2, 1), (1, 2, 3)):
                valid(ctx, f"sheval {degree} {use} {kin} {kout} {mode}", _pymm.sheval, loc, coef, kin, kout, mode, flag, use)
    nm = np.array([(k, s * m) for k in range(degree + 1) for m in range(k + 1) for s in (1, -1) if m or s > 0], "i4")
    times, t = np.array([0.0, 10.0, 30.0]), np.array([-5.0, 0.0, 10.0, 40.0, NAN])
    for order in (1, 2):
        one = (times, np.resize(coef, (len(nm), 3)), nm, order)
        for mode in (1, 2, 3):
            valid(ctx, f"shevaltemp {degree} {order} {mode}", _pymm.shevaltemp, t, loc, [one], 1, 0, mode)
    table = np.resize(coef, (len(nm), 2, 1, 2))
    for mode in (1, 2, 3):
        valid(ctx, f"sheval2dfs {degree} {mode}", _pymm.sheval2dfs, t, t, loc, (table, nm, 0, -1, 1.0, 2.0), 1, 0, mode)
    # coefficients for one degree less or more than stored
    for size in sorted({max(n - 1, 0), n, n + 1}):
        for use in (degree - 1, degree, degree + 1):
            valid(ctx, f"sheval of {size} terms, degree {use}", _pymm.sheval, loc, np.resize(coef, (size, 2)), 1, 1, 3, True, use)
            valid(ctx, f"spharpot of {size} terms, degree {use}", _pymm.spharpot, rad, np.resize(coef, (size, 2)), p, powers, trig, use)
            for less in (0, 1):
                cut = lambda a, less=less: np.array(a[..., :a.shape[-1] - less])
                valid(ctx, f"sphargrd of {size} terms, degree {use}, cut {less}", _pymm.sphargrd, lat, coef, p, cut(dp), powers, trig, use)
                valid(ctx, f"sphargrd of {size} terms, degree {use}, cut {less}", _pymm.sphargrd, lat, coef, cut(p), dp, cut(powers), np.array(trig[..., :trig.shape[-2] - less, :]), use)
                valid(ctx, f"spharpot of {size} terms, degree {use}, cut {less}", _pymm.spharpot, rad, coef, cut(p), powers, trig, use)
                valid(ctx, f"spharpot of {size} terms, degree {use}, cut {less}", _pymm.spharpot, rad, coef, p, cut(powers), trig, use)
                valid(ctx, f"spharpot of {size} terms, degree {use}, cut {less}", _pymm.spharpot, rad, coef, p, powers, np.array(trig[..., :trig.shape[-2] - less, :]), use)


def set_sizes(ctx, degrees):
    r, sets = catalog.ref, []
    loc, t = np.array([(10.0, 20.0, 6371.2), (-55.0, 200.0, 7000.0), (1.0, 2.0, 6800.0)]), np.array([-5.0, 12.0, 40.0])
    for k, d in enumerate(degrees):
        nm = np.array([(n, m) for n in range(d + 1) for m in range(-n, n + 1)][::-1], "i4")
        sets.append((np.arange(k + 1.0) * 10, np.resize(r.generic(99, salt=901 + k), (len(nm), k + 1)), nm, 1 + (k > 0)))
    for order in itertools.permutations(sets):
        for mode in (1, 2, 3):
            valid(ctx, f"shevaltemp of degrees {degrees}", _pymm.shevaltemp, t, loc, list(order), 1, 1, mode, repeats=1)
    for bad in ((degrees[0], degrees[0] + 1), (-1, 0), (degrees[0], -degrees[0] - 1), (2**31 - 1, 0), (40000, 1), (-2**31, 0), (1, 2**31 - 1), (1, -2**31)):
        item = list(sets[2])
        item[2] = item[2].copy()
        for row in {0, len(item[2]) - 1}:
            item[2][row] = bad
            valid(ctx, f"shevaltemp of degrees {degrees} with {bad}", _pymm.shevaltemp, t, loc, [sets[0], tuple(item)], repeats=1)
            valid(ctx, f"sheval2dfs with {bad}", _pymm.sheval2dfs, t, t, loc, (np.ones((len(item[2]), 1, 1, 2)), item[2], 0, 0, 1.0, 1.0), repeats=1)


def many_sets(ctx, count):
    nm = catalog.nm_full(1).astype("i4")
    item = (np.array([0.0, 1.0]), np.ones((len(nm), 2)), nm, 2)
    valid(ctx, f"{count} sets", _pymm.shevaltemp, 0.5, (1.0, 2.0, 6400.0), [item] * count, repeats=2)
    valid(ctx, f"{count} combined sets", lambda: catalog.Combined(*[catalog.linear(salt=s) for s in range(count)])(4.0))
    valid(ctx, f"{count} composed sets", lambda: catalog.Composed(*[catalog.linear(salt=s) for s in range(count)])(4.0))


def fourier_sizes(ctx, lo1, lo2):
    nm = catalog.nm_full(1, 0).astype("i4")
    t = np.array([0.0, 0.3, NAN])
    for n1, n2 in itertools.product(range(6), repeat=2):
        table = np.resize(catalog.ref.generic(50, salt=905), (len(nm), n1, n2, 2))
        valid(ctx, f"fourier2d {lo1}+{n1} {lo2}+{n2}", _pymm.fourier2d, t, t, table, lo1, lo2, 1.0, 2.0, repeats=1)
        for mode in (1, 3):
            valid(ctx, f"sheval2dfs {lo1}+{n1} {lo2}+{n2}", _pymm.sheval2dfs, t, t, np.ones((3, 3)), (table, nm, lo1, lo2, 1.0, 2.0), 1, 1, mode)


def node_sizes(ctx, count):
    nodes = np.arange(float(count))
    times = np.concatenate([nodes, nodes - 0.5, nodes + 0.5, [NAN, INF, -INF, -1.0, 9.0]])
    for k in (0, 1, 2):
        for n in range(count + 2):
            for series in (np.ones(n), np.ones((3, n)), np.ones((0, n)), np.ones((2, 1, n))):
                for extra in (True, False):
                    valid(ctx, f"interp {k} of {count} nodes and {series.shape}", _pymm.interp, times, nodes, series, k, extra, repeats=1)
    for side in (0, 1, 2, -1):
        valid(ctx, f"bisect {count} {side}", _pymm.bisect, nodes, times, side, repeats=1)
        valid(ctx, f"bisect {count} {side}", _pymm.bisect, nodes[::-1], times, side)
        valid(ctx, f"bisect {count} {side}", _pymm.bisect, np.full(count, NAN), times, side)


def shape_sizes(ctx, shape):
    shape = tuple(shape)
    for target in TARGETS.values():
        for arrays in itertools.product((False, True), repeat=min(3, sum(array_like(v) for v in target.args.values()))):
            kwargs, k = {}, 0
            for name, v in target.args.items():
                if array_like(v) and v.dtype.kind == "f" and k < len(arrays):
                    if arrays[k]:
                        v = np.resize(v, shape + v.shape[1:])
                    k += 1
                kwargs[name] = v
            valid(ctx, f"{target.name} with shape {shape} of {arrays}", target.func, repeats=1, **kwargs)


def layout_sizes(ctx, name):
    target = load()[name]
    for arg, v in target.args.items():
        if array_like(v):
            for make in layouts.EXACT:
                valid(ctx, f"{name}({arg}={make.__name__})", target.func, repeats=1, **dict(target.args, **{arg: make(v)}))


def entry_sizes(ctx, index):
    entry = catalog.entries()[index]
    for elem in entry.elements:
        valid(ctx, f"{entry.name}{elem}", entry.call, *elem)
    valid(ctx, f"{entry.name}", entry.call, *entry.elements[0], repeats=8)


SIZES = {"degree": degree_sizes, "sets": set_sizes, "many sets": many_sets, "fourier": fourier_sizes, "nodes": node_sizes, "shape": shape_sizes, "layout": layout_sizes, "entry": entry_sizes}


# --- damaged files ----------------------------------------------------------------------------------------

LOADERS = {}
TEXTS = {}


def make_texts():
    """ valid small files and functions reading them """
    if TEXTS:
        return
    from eoxmagmod.magnetic_model import loader_emm, loader_igrf, loader_mio, loader_shc, loader_wmm
    from . import c14, c17
    r = catalog.ref
    nm = [(n, m) for n in (1, 2) for m in range(-n, n + 1)]
    series = np.round(r.generic(len(nm), 2, salt=911) * 100, 1)
    rows = c14.wmm_rows(2)
    values = np.round(r.generic(len(rows), 4, salt=912) * 100, 1)
    extent = (0, 1, -1, 0)
    qs = c14.mio_values(nm[:3], extent, 913)
    emm = c14.emm_text(rows, values[:, :2], 2010.0, 1)
    TEXTS.update({
        "shc": "# x\n" + c14.shc_text(nm, series, [2000.0, 2005.0]),
        "igrf": c14.igrf_text(nm, series, series[:, 0], [2000.0, 2005.0], "# x\n"),
        "wmm": "    2015.0            WMM-TEST      09/18/2018\n" + "".join(" %2d %2d  %9.1f %9.1f %9.1f %9.1f\n" % (tuple(k) + tuple(v)) for k, v in zip(rows, values)) + "9" * 48 + "\n",
        "emm": emm,
        "mio": c14.mio_text(nm[:3], qs, qs, extent, 9.92, 287.78, 110.0, 0.01485, "# x\n"),
    })
    valid_emm = c14.write(emm, "-other.cof")
    LOADERS.update({
        "shc": [em.load_model_shc, loader_shc.load_coeff_shc, lambda p: em.load_model_shc_combined(p, p)],
        "igrf": [em.load_model_igrf, loader_igrf.load_coeff_igrf],
        "wmm": [em.load_model_wmm, loader_wmm.load_coeff_wmm],
        "emm": [lambda p: em.load_model_emm(p, valid_emm), lambda p: loader_emm.load_coeff_emm(valid_emm, p)],
        "mio": [loader_mio.load_model_swarm_mio_internal, loader_mio.load_model_swarm_mio_external, loader_mio.load_coeff_swarm_mio_external],
    })
    c17.make_files()
    with open(c17.make_file("c19.txt", 2, 1, 1, [2000.0, 2005.0], 914, 0.1), encoding="ascii") as fin:
        TEXTS["qd"] = fin.read()
    LOADERS["qd"] = [lambda p: em.eval_qdlatlon(10.0, 20.0, 6500.0, 2003.0, p), lambda p: em.eval_qdlatlon_with_base_vectors(10.0, 20.0, 6500.0, 2003.0, p)]


TOKENS = ["", "x", "nan", "inf", "-inf", "1e400", "-1", "0", "1.5", "7", "1e3", "0x10", "1,2", "2147483648", "99999999999999999999", "\u00e9", "\0", "#", "300"]
# larger dimensions of quasi-dipole files are out of bounds
QD_TOKENS = ["", "x", "nan", "inf", "-1", "0", "1.5", "7", "1e3", "1,2", "/", "2*", "99999999999999999999", "\u00e9", "#", "3*5"]
SERIAL = itertools.count()


def damage(kind, text):
    """ (label, bytes) """
    data = text.encode("utf-8")
    for k in range(len(data)):
        yield f"truncated to {k} bytes", data[:k]
    lines = text.splitlines(True)
    for k in range(len(lines)):
        for label, changed in (("removed", lines[:k] + lines[k + 1:]), ("repeated", lines[:k + 1] + lines[k:]), ("empty", lines[:k] + ["\n"] + lines[k + 1:]),
                               ("commented", lines[:k] + ["# " + lines[k]] + lines[k + 1:]), ("joined with the next", lines[:k] + [lines[k].rstrip("\n") + " "] + lines[k + 1:])):
            yield f"line {k} {label}", "".join(changed).encode("utf-8")
        for j in range(k):
            changed = list(lines)
            changed[k], changed[j] = changed[j], changed[k]
            yield f"lines {j} and {k} swapped", "".join(changed).encode("utf-8")
    for k, line in enumerate(lines):
        tokens = line.split()
        # data rows of the quasi-dipole file are alike
        for j in range(len(tokens) if kind != "qd" or k < 2 else 2):
            for new in QD_TOKENS if kind == "qd" else TOKENS:
                changed = tokens[:j] + [new] + tokens[j + 1:]
                yield f"item {j} of line {k} is {new!r}", "".join(lines[:k] + [" ".join(changed) + "\n"] + lines[k + 1:]).encode("utf-8")
            yield f"item {j} of line {k} repeated", "".join(lines[:k] + [" ".join(tokens[:j + 1] + tokens[j:]) + "\n"] + lines[k + 1:]).encode("utf-8")
    yield "binary", bytes(range(256)) * 4
    yield "line ends", data.replace(b"\n", b"\r\n")
    yield "no line ends", data.replace(b"\n", b" ")
    yield "long line", b"x" * 200000 + data
    yield "many digits", b"1" * 6000 + b" " + data
    yield "mark", b"\xef\xbb\xbf" + data
    yield "wide", text.encode("utf-16")
    yield "zeros", b"\0" * 500


def file_cases(tier):
    make_texts()
    for kind, text in TEXTS.items():
        count = sum(1 for _ in damage(kind, text))
        for k in range(0, count, 100):
            yield [kind, k]


@group("C19", "damaged files", file_cases, chunk=1)
def files(ctx, case):
    make_texts()
    freeze()
    kind, start = case
    for label, data in itertools.islice(damage(kind, TEXTS[kind]), start, start + 100):
        path = os.path.join(tempfile.gettempdir(), f"c19-{os.getpid()}-{next(SERIAL)}.txt")
        with open(path, "wb") as fout:
            fout.write(data)
        for k, load_file in enumerate(LOADERS[kind]):
            what = f"{kind} file ({label}), loader {k}"
            ctx.crumb(what)
            read = lambda: finish(load_file(path))
            outcome = attempt(ctx, what, read, (), {})
            ctx.observe(outcome)
            ctx.count(1)
            if outcome != "bad" and not label.startswith("truncated"):
                leaks(ctx, what, lambda: attempt(ctx, what, read, (), {}), repeats=2, refs=False)
        os.unlink(path)


def finish(loaded):
    """ use what has been loaded """
    if hasattr(loaded, "eval"):
        loaded.validity, loaded.degree
        return loaded.eval(1000.0, (1.0, 2.0, 6500.0))
    coefs = loaded[0] if isinstance(loaded, tuple) else loaded
    if hasattr(coefs, "ps_extent"):
        return coefs(1000.0, 3.0)
    return coefs(1000.0) if callable(coefs) else loaded


PATHS = [("None", None), ("empty", ""), ("missing", "/nonexistent/file"), ("directory", "/"), ("zero", "a\0b"), ("bytes", b"abc"), ("long", "x" * 300), ("longer", "y" * 1022), ("longer", "y" * 1023),
         ("longer", "y" * 1024), ("longest", "z" * 100000), ("surrogate", "\udcff"), ("number", 1.5), ("list", ["a"]), ("object", object()), ("device", "/dev/null"), ("accents", "\u00e9\u4e2d" * 400)]


@group("C19", "odd file names", lambda tier: [[k] for k in ("shc", "igrf", "wmm", "emm", "mio", "qd", "mma")], chunk=1)
def names(ctx, case):
    make_texts()
    freeze()
    kinds = LOADERS.get(case[0]) or [em.load_model_swarm_mma_2c_internal, em.load_model_swarm_mma_2c_external, em.load_model_swarm_mma_2f_geo_internal]
    for label, path in PATHS:
        for k, load_file in enumerate(kinds):
            what = f"{case[0]} file named by {label}, loader {k}"
            ctx.crumb(what)
            outcome = attempt(ctx, what, load_file, (path,), {})
            ctx.observe(outcome)
            ctx.count(1)
            if outcome != "bad":
                leaks(ctx, what, lambda: attempt(ctx, what, load_file, (path,), {}), repeats=3, refs=False)


# --- failing allocations -----------------------------------------------------------------------------------

class Allocations:
    """ calls with chosen failing allocations """
    lib = None

    @classmethod
    def load(cls):
        if cls.lib is None:
            lib = ctypes.PyDLL(os.environ["VERIF_FAILALLOC"])
            lib.failalloc_call.restype = ctypes.py_object
            lib.failalloc_call.argtypes = [ctypes.c_void_p, ctypes.py_object, ctypes.py_object, ctypes.py_object, ctypes.c_long, ctypes.c_long, ctypes.c_int, ctypes.POINTER(ctypes.c_long)]
            lib.failalloc_range.argtypes = [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_int]
            lib.failalloc_range.restype = None
            lib.failalloc_where.restype = ctypes.c_char_p
            cls.target = ctypes.cast(ctypes.pythonapi.PyObject_Call, ctypes.c_void_p)
            cls.count = ctypes.c_long()
            tree = os.environ["VERIF_TREE"]
            with open("/proc/self/maps", encoding="utf-8") as fin:
                for line in fin:
                    fields = line.split()
                    # the Fortran runtime library always ends the process when its own buffers cannot be allocated
                    if len(fields) > 5 and "x" in fields[1] and (fields[5].startswith(tree) or "/libgfortran" in fields[5]):
                        begin, end = (int(v, 16) for v in fields[0].split("-"))
                        lib.failalloc_range(begin, end, fields[5].startswith(tree))
            cls.lib = lib

    @classmethod
    def call(cls, func, args, kwargs, first, last, own):
        """ result or exception, number of allocations, was there a failure """
        cls.lib.failalloc_arm(0, 0)
        cls.lib.failalloc_disarm()
        try:
            result = cls.lib.failalloc_call(cls.target, func, args, kwargs, first, last, own, ctypes.byref(cls.count))
        except Exception as exc:
            result = exc.with_traceback(None)
        return result, cls.count.value, os.path.basename(cls.lib.failalloc_where().decode())


def drain():
    """ empty the stocks of reusable memory """
    gc.collect()
    return [np.empty(k, "u1") for k in range(8, 1032, 8) for _ in range(8)]


def equal(a, b):
    if isinstance(a, (tuple, list)):
        return type(a) is type(b) and len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and a.dtype == b.dtype and (a.tobytes() == b.tobytes() or (a.dtype.kind == "f" and np.array_equal(a, b, equal_nan=True)))


def allocation_calls():
    """ representative calls: name, function, arguments, all allocations (or own ones only) """
    out = []
    for t in load().values():
        out.append((t.name, t.func, (), t.args, t.native))
    r = catalog.ref
    loc = np.stack(np.broadcast_arrays(np.linspace(-80, 80, 200), np.linspace(-180, 180, 200), 6500.0), -1)
    t = np.linspace(0, 40, 200)
    nm = catalog.nm_full(3, 0).astype("i4")
    coef = r.generic_coef(3, salt=921, n0=True)
    sets = [(np.arange(n + 2.0) * 10, r.generic(len(nm), n + 2, salt=922 + n), nm, 1 + n % 2) for n in range(3)]
    lists = [tuple(np.asarray(x).tolist() if np.ndim(x) else x for x in s) for s in sets]
    table = r.generic(len(nm), 3, 2, 2, salt=925)
    big = [("legendre", _pymm.legendre, (t, 5)), ("loncossin", _pymm.loncossin, (t, 5, False)), ("loncossin", _pymm.loncossin, (t, 5, True)), ("relradpow", _pymm.relradpow, (t + 6400, 5)),
           ("convert", _pymm.convert, (loc, 0, 1)), ("convert lists", _pymm.convert, (loc.tolist(), 0, 2)), ("vrot_sph2cart", _pymm.vrot_sph2cart, (loc, t, t)),
           ("fourier2d", _pymm.fourier2d, (t, t, table, 0, -1, 1.0, 2.0)), ("_sunpos", _pysunpos.sunpos, (t, t, t)), ("_sunpos_original", _pysunpos.sunpos_original, (t, t, t)),
           ("interp", _pymm.interp, (t, sets[1][0], sets[1][1])), ("bisect", _pymm.bisect, (sets[1][0], t)), ("eval_subsol", _pyqd.eval_subsol, (t,)), ("eval_mlt", _pyqd.eval_mlt, (t, t)),
           ("eval_qdlatlon", _pyqd.eval_qdlatlon, (t, t, t + 6500, t * 0.1 + 2000, bundled.APEX_LATEST, True)), ("eval_qdlatlon", _pyqd.eval_qdlatlon, (t, t, t + 6500, t * 0.1 + 2000, bundled.APEX_LATEST, False))]
    for mode in (1, 2, 3):
        for kin, kout, internal in ((0, 2, True), (1, 1, False)):
            options = (kin, kout, mode, internal)
            big += [(f"sheval {options}", _pymm.sheval, (loc, coef) + options + (3, 2.0, [1.0, 2.0, 3.0])), (f"shevaltemp {options}", _pymm.shevaltemp, (t, loc, sets) + options + (2.0, [1.0, 2.0, 3.0])),
                    (f"shevaltemp lists {options}", _pymm.shevaltemp, (t.tolist(), loc.tolist(), lists) + options), (f"sheval2dfs {options}", _pymm.sheval2dfs, (t, t, loc, (table, nm, -1, 0, 1.0, 0.25)) + options),
                    (f"sheval2dfs lists {options}", _pymm.sheval2dfs, (t.tolist(), t.tolist(), loc, (table.tolist(), nm.tolist(), -1, 0, 1.0, 0.25)) + options)]
    for name, func, args in big:
        out.append((name + " of 200", func, args, {}, True))
    return out


def failing_cases(tier):
    for k in range(len(allocation_calls())):
        yield [k]
    for k in range(6):
        yield ["file", k]


@group("C19", "failing allocations", failing_cases, chunk=1)
def failing(ctx, case):
    freeze()
    Allocations.load()
    if case[0] == "file":
        return failing_load(ctx, case[1])
    name, func, args, kwargs, native = allocation_calls()[case[0]]
    try:
        expected = func(*args, **kwargs)
        for _ in range(3):
            func(*args, **kwargs)
    except Exception:
        return
    fail_each(ctx, name, lambda: (func, args, kwargs), expected, native)


def fail_each(ctx, name, make, expected, native, repeats=6):
    keep, index = drain(), 0
    while True:
        index += 1
        func, args, kwargs = make()
        what = f"{name}, allocation {index} fails"
        ctx.crumb(what)
        values = list(args) + list(kwargs.values())
        before = references(values)
        keep = None
        keep = drain()
        result, count, where = Allocations.call(func, args, kwargs, index, index, not native)
        if not where:
            break
        ctx.count(1)
        ctx.transition(1)
        what += f" (asked for by {where.split('.')[0]})"
        if isinstance(result, BaseException):
            ctx.observe(type(result).__name__)
            if isinstance(result, SystemError):
                ctx.fail(f"{what}: {result} (caused by {result.__cause__!r})")
                continue
            result = None
        else:
            ctx.observe("value")
            ctx.require(equal(result, expected), f"{what}: another result is returned")
        after = references(values)
        if after != before:
            gc.collect()
            after = references(values)
        ctx.require(after == before, f"{what}: reference counts of the arguments {before} became {after}")
        ctx.require(equal(func(*args, **kwargs), expected), f"{what}: the next call gives another result")

        def again():
            func, args, kwargs = make()
            Allocations.call(func, args, kwargs, index, index, not native)
        if repeats:
            leaks(ctx, what, again, repeats, refs=False)


def failing_load(ctx, index):
    """ quasi-dipole coefficients read for the first time """
    make_texts()
    lat, rad, t = np.array([10.0, 20.0]), np.array([6500.0, 7000.0]), np.array([2000.0, 2004.0])
    text, flag = TEXTS["qd"], bool(index % 2)

    def make():
        path = os.path.join(tempfile.gettempdir(), f"c19-{os.getpid()}-{next(SERIAL)}.txt")
        with open(path, "w", encoding="ascii") as fout:
            fout.write(text)
        return _pyqd.eval_qdlatlon, (lat, lat, rad, t, path, flag), {}
    func, args, _ = make()
    fail_each(ctx, f"first use of a coefficient file, base vectors {flag}", make, func(*args), False, repeats=0)
