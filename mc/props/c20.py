""" C20 - concurrent use of shared models gives sequential results

Two real threads run under a controlled scheduler: exactly one of them runs at
a time and control can be handed over before every executed line (or bytecode
instruction) of the package, inside conversions of array-like arguments and
inside native code which gave up the interpreter lock.  All schedules up to
the preemption bound are executed on fresh shared objects; each call has to
return what it returns alone. """
import ctypes
import decimal
import itertools
import os
import sys
import tempfile
import threading
import warnings
import numpy as np
import eoxmagmod as em
from eoxmagmod import data as bundled
from eoxmagmod.time_util import mjd2000_to_decimal_year, datetime_to_decimal_year
from ..core import group, jsonable
from .. import catalog
from .c17 import FILES, make_files

NAN, INF = float("nan"), float("inf")
PACKAGE = os.path.dirname(em.__file__) + os.sep
END = 1 << 60
PATIENCE = 0.25    # s without a step before the other thread is let go


# --- the scheduler -----------------------------------------------------------------

class Thread:
    def __init__(self, func):
        self.func = func
        self.gate = threading.Lock()
        self.gate.acquire()
        self.done = False
        self.steps = self.native = 0
        self.result = None


class Execution:
    """ plan: [(thread, number of steps), ...]; afterwards all threads run to their ends """
    CURRENT = None

    def __init__(self, funcs, plan, opcodes=False, count_steps=False):
        self.free = False
        self.count_steps = count_steps
        self.threads = [Thread(func) for func in funcs]
        self.plan = list(plan)
        self.opcodes = opcodes
        self.ids = {}
        self.left = None
        self.running = None
        self.blocked = 0
        self.handovers = 0

    # called by the running thread
    def step(self):
        me = self.ids.get(threading.get_ident())
        if me is None or self.threads[me].done:
            return
        self.threads[me].steps += 1
        if self.free:
            return
        if self.left is not None and me == self.running:
            if self.left == 0:
                self.switch(me)
            if self.left is not None:
                self.left -= 1

    def choose(self, me):
        """ the next thread to run and the number of its steps """
        while self.plan:
            thread, steps = self.plan.pop(0)
            if not self.threads[thread].done:
                self.left = steps if steps < END else None
                self.free = steps >= END
                return thread
        self.left = None
        self.free = not self.count_steps
        order = [me] if me is not None else []
        for num in order + list(range(len(self.threads))):
            if not self.threads[num].done:
                return num
        return None

    def switch(self, me):
        chosen = self.choose(me)
        if chosen is None:
            return
        self.running = chosen
        if chosen == me:
            return
        self.handovers += 1
        self.release(self.threads[chosen].gate)
        if me is None or self.threads[me].done:
            return
        mine = self.threads[me].gate
        while not mine.acquire(timeout=PATIENCE):
            # the other thread might wait for something this one holds
            seen = [t.steps for t in self.threads]
            if mine.acquire(timeout=PATIENCE):
                break
            if seen == [t.steps for t in self.threads]:
                self.blocked += 1
                self.plan, self.left = [], None
                self.running = me
                break

    @staticmethod
    def release(gate):
        try:
            gate.release()
        except RuntimeError:
            pass    # already released (a thread which went on by itself)

    # tracing
    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(PACKAGE):
            return None
        if self.opcodes:
            frame.f_trace_lines = False
            frame.f_trace_opcodes = True
        return self.local

    def local(self, frame, event, arg):
        if event in ("line", "opcode"):
            self.step()
        return self.local

    def body(self, num):
        me = self.threads[num]
        me.gate.acquire()
        self.ids[threading.get_ident()] = num
        sys.settrace(self.trace)
        try:
            me.result = ("value", me.func())
        except Exception as exc:
            me.result = ("error", type(exc).__name__)
        except BaseException as exc:    # anything else would be lost with the thread
            me.result = ("abort", repr(exc))
        finally:
            sys.settrace(None)
        me.done = True
        if self.running == num or self.blocked:
            self.switch(num)

    def run(self):
        Execution.CURRENT = self
        while len(POOL) < len(self.threads):
            POOL.append(Worker())
        for num, worker in enumerate(POOL[:len(self.threads)]):
            worker.job = (self.body, num)
            worker.start.release()
        self.switch(None)
        for worker in POOL[:len(self.threads)]:
            if not worker.ready.acquire(timeout=60):
                raise SystemExit("the threads wait for each other")
        Execution.CURRENT = None
        return [t.result for t in self.threads]


class Worker:
    """ a thread which stays alive between the executions """
    def __init__(self):
        self.start, self.ready = threading.Lock(), threading.Lock()
        self.start.acquire()
        self.ready.acquire()
        self.job = None
        threading.Thread(target=self.loop, daemon=True).start()

    def loop(self):
        while True:
            self.start.acquire()
            func, num = self.job
            func(num)
            self.ready.release()


POOL = []


def yield_point():
    execution = Execution.CURRENT
    if execution is not None:
        execution.step()


def native_point():
    """ a function entry or exit in native code which released the interpreter
    lock; the number of these per call is bounded """
    execution = Execution.CURRENT
    if execution is None:
        return
    me = execution.ids.get(threading.get_ident())
    if me is not None:
        thread = execution.threads[me]
        thread.native += 1
        if thread.native <= NATIVE_LIMIT:
            execution.step()


NATIVE_LIMIT = 12
HELPER = None


def attach(scene):
    """ let native code ask the scheduler, too """
    global HELPER, NATIVE_LIMIT
    NATIVE_LIMIT = 120 if scene == "quasi-dipole" else 12
    if HELPER is None:
        HELPER = ctypes.PyDLL(os.environ["VERIF_SCHED"])
        HELPER.verif_set_callback.argtypes = [ctypes.py_object]
        HELPER.verif_set_callback.restype = None
        HELPER.verif_points.restype = ctypes.c_ulong
        HELPER.verif_releases.restype = ctypes.c_ulong
        HELPER.verif_set_callback(native_point)
    return HELPER


class Slow:
    """ an array-like object which lets the other thread run when it is converted """
    def __init__(self, data):
        self.data = np.asarray(data)

    def __array__(self, dtype=None, copy=None):
        yield_point()
        return np.array(self.data, dtype=dtype)

    def __len__(self):
        yield_point()
        return len(self.data)

    def __getitem__(self, index):
        yield_point()
        return self.data[index]


# --- shared objects and calls ------------------------------------------------------------

LOC = np.array([(10.0, 20.0, 6371.2), (-55.0, 200.0, 7000.0), (80.0, -100.0, 6500.0), (90.0, 20.0, 6371.2)])
T = np.array([4.0, 17.0, 10.0, -3.0])


def make_model(name):
    """ fresh objects of the catalog's kinds """
    c = catalog
    if name == "constant":
        return c.SHModel(c.constant())
    if name == "linear":
        return c.SHModel(c.linear())
    if name == "order 1":
        return c.SHModel(c.linear(salt=7, spline_order=1))
    if name == "decimal year":
        return c.SHModel(c.linear(salt=4, times=(2000.0, 2000.01, 2000.05), cls=c.LinearDY))
    if name == "composed":
        return c.SHModel(c.Composed(
            c.linear(salt=8, times=(0.0, 10.0)), c.constant(salt=9, validity_start=5.0, validity_end=20.0),
            c.linear(salt=11, times=(20.0, 25.0, 30.0), degree=3)))
    if name == "combined":
        return c.SHModel(c.Combined(c.linear(salt=12), c.constant(salt=13, degree=3), c.linear(salt=14, times=(-5.0, 15.0))))
    if name == "mixed scales":
        return c.SHModel(c.Combined(c.linear(salt=15), c.linear(salt=16, times=(2000.0, 2000.02), cls=c.LinearDY)))
    if name == "nested":
        return c.SHModel(c.Composed(
            c.Combined(c.linear(salt=17, times=(0.0, 10.0)), c.constant(salt=18)),
            c.Combined(c.linear(salt=19, times=(10.0, 30.0)), c.linear(salt=20, times=(2000.0, 2000.06), cls=c.LinearDY))))
    if name == "dipole":
        return c.DipoleModel(c.Combined(c.linear(salt=22), c.constant(salt=23)), c.POLE)
    if name == "mio":
        return c.MIOModel(c.mio(salt=6, internal=False, validity_start=0.0, validity_end=30.0), c.POLE, wolf_ratio=0.01)
    if name == "mio primary":
        return c.MIOPrimary(
            c.MIOModel(c.mio(salt=24, internal=False, validity_start=0.0, validity_end=30.0), c.POLE),
            c.MIOModel(c.mio(salt=25, validity_start=0.0, validity_end=30.0), c.POLE))
    if name == "sum":
        model = em.ComposedGeomagneticModel()
        model.push(make_model("linear"))
        model.push(make_model("dipole"), scale=2.0, max_degree=1)
        model.push(make_model("mio primary"), scale=-0.5)
        return model
    if name == "nested sum":
        inner = em.ComposedGeomagneticModel(make_model("constant"))
        inner.push(make_model("composed"), scale=-3.0, max_degree=1)
        model = em.ComposedGeomagneticModel(inner)
        model.push(inner, scale=0.5, min_degree=2)
        return model
    raise KeyError(name)


KINDS = ["constant", "linear", "order 1", "decimal year", "composed", "combined", "mixed scales", "nested", "dipole", "mio",
         "mio primary", "sum", "nested sum"]
EVALS = [
    ("single", lambda m: m.eval(4.0, LOC[0])),
    ("array", lambda m: m.eval(T, LOC, f107=90.0)),
    ("other frame and limits", lambda m: m.eval(17.0, LOC[:2], 1, 2, min_degree=1, max_degree=1)),
    ("geodetic", lambda m: m.eval(T[:2], [(10.0, 20.0, 0.5), (-80.0, 3.0, 100.0)], 0, 0, scale=-2.0)),
    ("undefined", lambda m: m.eval([4.0, NAN, INF], LOC[:3], 2, 1)),
    ("fails", lambda m: m.eval(T[:3], LOC[:2, :2])),
    ("slow arguments", lambda m: m.eval(Slow(T[1:]), Slow(LOC[1:]), f107=Slow([70.0, 90.0, 150.0]))),
    ("properties", lambda m: (m.validity, sorted(m.parameters))),
]
MIO_EVALS = [
    ("given sun", lambda m: m.eval(T, LOC, f107=[70.0, 100.0, 150.0, 200.0], lat_sol=[1.0, -5.0, 20.0, 3.0], lon_sol=[0.0, 90.0, -100.0, 3.0])),
    ("given time", lambda m: m.eval(10.0, LOC[1], f107=10.0, mut=3.0, lat_sol=1.0, lon_sol=4.0)),
]
LINES = [
    ("line", lambda m: em.trace_field_line(m, 4.0, LOC[0], trace_options={"max_steps": 3, "step": 5e2})),
    ("other line", lambda m: em.trace_field_line(m, 10.0, (40.0, 10.0, 200.0), 0, 2, trace_options={"max_steps": 2, "step": 3e2})),
]
CALLS = [
    ("coefficients", lambda c: c(4.0)), ("coefficients of an array", lambda c: c(T)),
    ("limited", lambda c: c(17.0, max_degree=1)), ("limits", lambda c: (c.degree, c.min_degree, c.validity)),
    ("undefined", lambda c: c(np.array([NAN, 25.0]), min_degree=2)), ("fails", lambda c: c("never")),
    ("valid", lambda c: [c.is_valid(t) for t in (4.0, 10.0, 1e6)] if hasattr(c, "is_valid") else c(10.0)),
]
PLAIN = [
    ("sheval", lambda s: em.sheval(Slow(LOC[:2]), Slow(catalog.ref.generic_coef(3, salt=31)), 1, 0)),
    ("sheval all", lambda s: em.sheval(LOC[1:], Slow(catalog.ref.generic_coef(5, salt=32)), 1, 2, mode=3)),
    ("convert", lambda s: em.convert(Slow(LOC), 1, 0)), ("convert back", lambda s: em.convert(Slow(LOC[::-1] * 1.5), 2, 1)),
    ("vrotate", lambda s: em.vrotate(Slow(LOC), Slow(LOC), Slow(em.convert(LOC, 1, 0)), 1, 0)),
    ("vectors", lambda s: (em.vnorm(Slow(LOC)), em.vincdecnorm(Slow(LOC)), em.vrot_sph2cart(Slow(LOC), Slow(T), Slow(T)))),
    ("legendre", lambda s: (em.legendre(Slow(T), 4), em.loncossin(Slow(T), 5), em.relradpow(Slow(LOC[:, 2]), 3))),
    ("legendre of other degree", lambda s: (em.legendre(Slow(T * 3), 7), em.loncossin(Slow(T), 2, False), em.relradpow(Slow(LOC[1:, 2]), 9, is_internal=False))),
    ("dipole", lambda s: (em.convert_to_dipole(LOC, 80.0, -70.0, 1), em.vrot_from_dipole(LOC, 80.0, -70.0, T, T, T, T, 2))),
    ("other dipole", lambda s: (em.convert_to_dipole(LOC, 50.0, 10.0, 0), em.sheval_dipole(LOC, catalog.ref.generic_coef(2, salt=33), 40.0, 7.0, 1, 0))),
    ("times", lambda s: (em.mjd2000_to_decimal_year(Slow(T * 100)), em.decimal_year_to_mjd2000(Slow(2000 + T)), em.mjd2000_to_year_fraction(T))),
    ("sun", lambda s: em.sunpos(Slow(T * 300), Slow(T), Slow(T * 20))), ("original sun", lambda s: em.sunpos_original(T * 200 + 1000, Slow(T * 5), T * 3)),
    ("magnetic time", lambda s: em.mjd2000_to_magnetic_universal_time(Slow(T), 80.0, -72.0)),
    ("magnetic time of another pole", lambda s: em.mjd2000_to_magnetic_universal_time(T * 50, 60.0, 30.0, Slow(T), T)),
]


def native_calls():
    """ the native functions, switching in the conversion of every array argument """
    from .c19 import make_targets
    out = []
    for target in make_targets():
        if target.native:
            out.append((target.name, lambda s, t=target: t.func(**{k: slowed(v) for k, v in t.args.items()})))
    return out


def slowed(value):
    if isinstance(value, np.ndarray):
        return Slow(value)
    if isinstance(value, (list, tuple)):
        return type(value)(slowed(v) for v in value)
    return value


def qd_calls():
    files = make_files()
    out = []
    for key, scale in (("A", 1.0), ("C", 1.0), ("D", -1.0), ("latest", 1.0)):
        out.append((f"file {key}", lambda s, f=files[key], k=scale: em.eval_qdlatlon_with_base_vectors(
            Slow([10.0 * k, -50.0]), Slow([20.0, 100.0]), Slow([6400.0, 7000.0 + k]), Slow([2001.0, 2011.0]), f)))
    out.append(("place", lambda s: em.eval_qdlatlon(Slow([40.0]), Slow([-20.0]), Slow([6371.2]), Slow([2004.5]), files["A"])))
    out.append(("other epoch", lambda s: em.eval_qdlatlon(40.0, -20.0, 6371.2, 1990.0, files["A"])))
    out.append(("missing file", lambda s: em.eval_qdlatlon(40.0, -20.0, 6371.2, 1990.0, files["missing"])))
    out.append(("cut file", lambda s: em.eval_qdlatlon(40.0, -20.0, 6371.2, 2000.0, files["cut.txt"])))
    out.append(("local time", lambda s: em.eval_mlt(Slow([10.0, 100.0]), Slow([100.0, 8000.3]), files["A"])))
    out.append(("other local time", lambda s: em.eval_mlt(Slow([-10.0, 50.0]), Slow([-3000.3, 3.0]), files["D"])))
    out.append(("sun", lambda s: em.eval_subsol(Slow([10.0, 1000.0, -5.4]))))
    return out


SMALL = {}


def small_files():
    """ two files of each format with the same layout and different values """
    if SMALL:
        return SMALL
    from . import c14
    folder = tempfile.mkdtemp(prefix="c20-")

    def put(name, text):
        SMALL[name] = os.path.join(folder, name)
        with open(SMALL[name], "w", encoding="ascii") as fout:
            fout.write(text)

    nm = c14.PATTERNS["dipole"]
    for k in (1, 2):
        years = [2000.0, 2002.5, 2004.0 + k]
        series = c14.numbers(3, 3, 1000 + k)
        put(f"shc {k}", c14.shc_text(nm, series, years))
        put(f"igrf {k}", c14.igrf_text(nm, series, series[:, 0] / 100, [1995.0, 2000.0, 2005.0], ""))
        rows = c14.wmm_rows(1)
        put(f"wmm {k}", "    2000.0   WMM-TEST   09/18/2018\n" + "".join(
            " %2d %2d  %9.1f %9.1f %9.1f %9.1f\n" % (n, m, 100.0 * k + n, 7.0 * m, k, m) for n, m in rows) + "9" * 48 + "\n")
        put(f"emm {k}", c14.emm_text(rows, series[:2, :2], 2000.0))
        put(f"emm rate {k}", c14.emm_text(rows, series[:2, :2] / 9, 2000.0))
        values = c14.mio_values(nm, (0, 0, 0, 0), 1010 + k)
        put(f"mio {k}", c14.mio_text(nm, values, values * 2, (0, 0, 0, 0), 9.9, 287.8, 110.0, 0.01485))
        name = f"mma {k}"
        SMALL[name] = c14.write_cdf(os.path.join(folder, f"mma{k}.cdf"), "2C internal" if "2C internal" in c14.FAMILIES else list(c14.FAMILIES)[0],
                                    c14.mma_data("2C internal" if "2C internal" in c14.FAMILIES else list(c14.FAMILIES)[0], k, [0.0, 1.0 + k]))
    return SMALL


def loader_calls():
    from . import c14
    files = small_files()
    family = "2C internal" if "2C internal" in c14.FAMILIES else list(c14.FAMILIES)[0]
    load_mma = getattr(em, "load_model_swarm_mma_" + c14.FAMILIES[family][0])

    def model(load, *names, t=500.0, **kw):
        m = load(*[files[n] for n in names], **kw)
        return m.validity, m.degree, m.min_degree, m.eval(t, LOC)
    return [
        ("shc", lambda s: model(em.load_model_shc, "shc 1")), ("other shc", lambda s: model(em.load_model_shc, "shc 2", interpolate_in_decimal_years=True)),
        ("igrf", lambda s: model(em.load_model_igrf, "igrf 1")), ("other igrf", lambda s: model(em.load_model_igrf, "igrf 2")),
        ("wmm", lambda s: model(em.load_model_wmm, "wmm 1")), ("other wmm", lambda s: model(em.load_model_wmm, "wmm 2")),
        ("emm", lambda s: model(em.load_model_emm, "emm 1", "emm rate 1")), ("other emm", lambda s: model(em.load_model_emm, "emm 2", "emm rate 2")),
        ("mio", lambda s: model(em.load_model_swarm_mio_internal, "mio 1")), ("other mio", lambda s: model(em.load_model_swarm_mio_external, "mio 2")),
        ("mma", lambda s: model(load_mma, "mma 1", t=0.5)), ("other mma", lambda s: model(load_mma, "mma 2", t=0.5)),
        ("several shc", lambda s: model(em.load_model_shc_combined, "shc 1", "shc 2")), ("missing", lambda s: em.load_model_shc("/nowhere/at/all.shc")),
    ]


def nothing():
    return None


def coefficients(name):
    return lambda: make_model(name).coefficients


def scenes():
    """ name: (factory of the shared objects, calls on them) """
    out = {}
    for name in KINDS:
        calls = EVALS + (MIO_EVALS if name in ("mio", "mio primary", "sum") else [])
        out["model " + name] = (lambda name=name: make_model(name), calls)
    for name in ("linear", "sum", "mio primary"):
        out["lines " + name] = (lambda name=name: make_model(name), LINES + EVALS[1:2])
    for name in KINDS[:-3]:
        out["coefficients " + name] = (coefficients(name), CALLS if name != "mio" else [
            ("one", lambda c: c(4.0, mut=3.0, lat_sol=1.0, lon_sol=2.0)), ("array", lambda c: c(T, mut=T, lat_sol=T, lon_sol=T)),
            ("limited", lambda c: c(5.0, mut=1.0, max_degree=1))])
    out["functions"] = (nothing, PLAIN)
    out["native functions"] = (nothing, native_calls())
    out["quasi-dipole"] = (nothing, qd_calls())
    out["files"] = (nothing, loader_calls())
    return out


SCENES = {}


def load():
    if not SCENES:
        SCENES.update(scenes())
    return SCENES


def prepare(tier):
    make_files()
    load()


# --- verdicts --------------------------------------------------------------------------------

def equal(result, wanted):
    return result is not None and result[0] == wanted[0] and same(result[1], wanted[1])


def same(a, b):
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape and a.dtype == b.dtype and a.tobytes() == b.tobytes():
        return True
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    try:
        x, y = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    except (TypeError, ValueError):
        return a == b
    if x.shape != y.shape:
        return False
    with np.errstate(all="ignore"):
        scale = np.nan_to_num(np.abs(y), posinf=0.0).max() if y.size else 0.0
        good = (np.abs(x - y) <= 1e-12 * scale) | (x == y) | (np.isnan(x) & np.isnan(y))
    return bool(good.all())


def process_state():
    return (np.geterr(), warnings.filters[:], os.getcwd(), decimal.getcontext().prec, sys.getrecursionlimit(),
            np.get_printoptions().get("precision"))


ALONE = {}


def alone(scene, num):
    key = (scene, num)
    if key not in ALONE:
        factory, calls = SCENES[scene]
        shared = factory()
        try:
            ALONE[key] = ("value", calls[num][1](shared))
        except Exception as exc:
            ALONE[key] = ("error", type(exc).__name__)
    return ALONE[key]


def steps_of(scene, num, opcodes):
    """ number of steps of the call alone, on fresh objects """
    attach(scene)
    factory, calls = SCENES[scene]
    shared = factory()
    execution = Execution([lambda: calls[num][1](shared)], [], opcodes, count_steps=True)
    execution.run()
    return execution.threads[0].steps


def explore(ctx, scene, nums, plan, opcodes=False, before=None):
    """ one schedule on fresh objects """
    factory, calls = SCENES[scene]
    expected = [alone(scene, n) for n in nums]
    shared = factory()
    state = process_state()
    execution = Execution([lambda n=n: calls[n][1](shared) for n in nums], plan, opcodes)
    results = execution.run()
    ctx.count(1)
    ctx.transition(sum(t.steps for t in execution.threads))
    ctx.trace()
    names = [calls[n][0] for n in nums]
    if execution.blocked:
        ctx.note("schedules with a waiting thread", 1)
    good = True
    for name, result, wanted in zip(names, results, expected):
        ctx.compared += 1
        if not equal(result, wanted):
            good = False
            ctx.fail(f"{scene}: '{name}' run with {names} under the schedule {plan} gives {str(result)[:160]} instead of {str(wanted)[:160]}")
    good &= ctx.require(process_state() == state, f"{scene}: {names} under the schedule {plan} change the state of the process")
    if good:    # the shared objects still give the same
        for n, wanted in dict(zip(nums, expected)).items():
            try:
                result = ("value", calls[n][1](shared))
            except Exception as exc:
                result = ("error", type(exc).__name__)
            ctx.compared += 1
            if not equal(result, wanted):
                good = False
                ctx.fail(f"{scene}: '{calls[n][0]}' after the concurrent {names} under the schedule {plan} gives {str(result)[:160]} instead of {str(wanted)[:160]}")
    return good, execution


def points(steps, stride=1):
    return range(0, steps + 1, stride)


# --- one preemption ------------------------------------------------------------------------------

LONG = ("model sum", "model mio primary", "model nested sum", "model mio")


def pair_cases(tier):
    load()
    for scene, (_, calls) in SCENES.items():
        for a, b in itertools.product(range(len(calls)), repeat=2):
            if tier == "quick":
                if scene == "files" and a // 2 != b // 2:
                    continue
                if scene in LONG and not (b == (a + 1) % len(calls) or (a, b) in ((0, 0), (1, 1), (1, 0), (1, len(calls) - 2))):
                    continue
                if scene in ("lines sum", "lines mio primary") and (a, b) not in ((2, 0), (2, 1), (0, 2)):
                    continue
            yield [scene, a, b]


@group("C20", "one preemption", pair_cases, chunk=2)
def one_preemption(ctx, case):
    """ the first call is suspended before each of its steps, the second runs to its end """
    scene, a, b = case
    load()
    attach(scene)
    total = steps_of(scene, a, False)
    ctx.observe(total)
    for k in points(total):
        ctx.state(scene, a, b, k)
        if not explore(ctx, scene, (a, b), [(0, k), (1, END)])[0]:
            return
    ctx.require(total > 0 or scene in ("functions", "quasi-dipole"), f"{scene}: no steps of {SCENES[scene][1][a][0]} seen")


def opcode_cases(tier):
    load()
    for scene, (_, calls) in SCENES.items():
        if tier == "quick" and (scene in LONG + ("files",) or scene.startswith("lines")):
            continue
        limit = min(len(calls), 4) if tier == "thorough" else 2
        for a, b in itertools.product(range(limit), repeat=2):
            if tier == "quick" and a == b and scene not in ("functions", "quasi-dipole"):
                continue
            yield [scene, a, b]


@group("C20", "one preemption between instructions", opcode_cases, chunk=1)
def one_preemption_opcodes(ctx, case):
    scene, a, b = case
    load()
    attach(scene)
    total = steps_of(scene, a, True)
    ctx.observe(total)
    for k in points(min(total, 6000)):
        if not explore(ctx, scene, (a, b), [(0, k), (1, END)], opcodes=True)[0]:
            return


# --- two preemptions ------------------------------------------------------------------------------

def two_cases(tier):
    load()
    for scene, (_, calls) in SCENES.items():
        if scene in LONG + ("files",) or scene.startswith("lines"):
            continue
        if scene in ("functions", "quasi-dipole"):
            pairs = list(itertools.product(range(len(calls)), repeat=2))
        elif tier == "quick":
            pairs = [(0, 1)]
        else:
            pairs = [(0, 1), (1, 0), (1, 2), (1, 3), (3, 4)][:5 if len(calls) > 4 else 3]
        for a, b in pairs:
            if b >= len(calls):
                continue
            for k in range(steps_of(scene, a, False) + 1):
                yield [scene, a, b, k]


@group("C20", "two preemptions", two_cases, chunk=8)
def two_preemptions(ctx, case):
    """ the first call stops at its step k, the second at every of its steps, then both finish in either order """
    scene, a, b, k = case
    load()
    attach(scene)
    total = steps_of(scene, b, False)
    ctx.observe([k, total])
    for j in points(total):
        ctx.state(scene, a, b, k, j)
        if not explore(ctx, scene, (a, b), [(0, k), (1, j), (0, END), (1, END)])[0]:
            return


# --- three threads -----------------------------------------------------------------------------------

def three_cases(tier):
    load()
    for scene, (_, calls) in SCENES.items():
        if scene in LONG + ("files",) or scene.startswith("lines"):
            continue
        if tier == "quick" and not scene.startswith(("coefficients", "functions", "quasi")):
            continue
        for a, b, c in ((0, 1, 2), (1, 0, 1), (2, 1, 0))[:1 if tier == "quick" else 3]:
            for k in range(0, steps_of(scene, a, False) + 1):
                yield [scene, a, b, c, k]


@group("C20", "three threads", three_cases, chunk=8)
def three_threads(ctx, case):
    """ the third call runs to its end while the first two are in progress """
    scene, a, b, c, k = case
    load()
    attach(scene)
    total = steps_of(scene, b, False)
    ctx.observe([k, total])
    for j in points(total):
        if not explore(ctx, scene, (a, b, c), [(0, k), (1, j), (2, END), (0, END), (1, END)])[0]:
            return


# --- calls made in the course of other calls -------------------------------------------------------

class Nested:
    """ an array-like object whose conversion makes another call """
    def __init__(self, data, call):
        self.data, self.call, self.results = np.asarray(data), call, []

    def __array__(self, dtype=None, copy=None):
        if len(self.results) < 3:
            try:
                self.results.append(("value", self.call()))
            except Exception as exc:
                self.results.append(("error", type(exc).__name__))
        return np.array(self.data, dtype=dtype)


def arrays_of(value, path=()):
    if isinstance(value, np.ndarray):
        yield path
    elif isinstance(value, (list, tuple)):
        for k, v in enumerate(value):
            yield from arrays_of(v, path + (k,))


def replaced(value, path, func):
    if not path:
        return func(value)
    return type(value)(replaced(v, path[1:], func) if k == path[0] else v for k, v in enumerate(value))


def nested_cases(tier):
    from .c19 import make_targets
    natives = [t for t in make_targets() if t.native]
    for outer in range(len(natives)):
        for inner in range(len(natives)):
            yield [outer, inner, natives[outer].name, natives[inner].name]


@group("C20", "calls within calls", nested_cases, chunk=8)
def nested(ctx, case):
    """ the conversion of every array argument of a native function makes
    another native call: the deepest form of the interleaving """
    from .c19 import make_targets
    outer, inner = case[:2]
    natives = [t for t in make_targets() if t.native]
    f, g = natives[outer], natives[inner]
    small = {k: v[:1] if isinstance(v, np.ndarray) and k in ("arr_t", "arr_x", "arr_t1", "arr_t2") else v for k, v in g.args.items()}
    wanted = ("value", f.func(**f.args))
    for name, value in f.args.items():
        for path in arrays_of(value):
            for other in (g.args, small):
                try:
                    alone_inner = ("value", g.func(**other))
                except Exception as exc:
                    alone_inner = ("error", type(exc).__name__)
                made = []

                def hook(data):
                    made.append(Nested(data, lambda: g.func(**other)))
                    return made[-1]

                args = dict(f.args)
                args[name] = replaced(value, path, hook)
                ctx.crumb(f"{f.name} whose {name}{list(path)} calls {g.name}")
                try:
                    result = ("value", f.func(**args))
                except Exception as exc:
                    result = ("error", type(exc).__name__)
                ctx.count(1)
                ctx.transition(1 + len(made[0].results))
                ctx.compared += 2
                if not equal(result, wanted):
                    ctx.fail(f"{f.name} whose argument {name}{list(path)} calls {g.name} when it is read gives {str(result)[:160]} instead of {str(wanted)[:160]}")
                    return
                for got in made[0].results:
                    if not equal(got, alone_inner):
                        ctx.fail(f"{g.name} called while {f.name} reads its argument {name}{list(path)} gives {str(got)[:160]} instead of {str(alone_inner)[:160]}")
                        return
    ctx.observe([f.name, g.name])
