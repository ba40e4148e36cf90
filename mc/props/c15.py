""" C15 - field values exist exactly within the declared validity """
import itertools
import numpy as np
import eoxmagmod as em
from eoxmagmod import data as bundled
from eoxmagmod.magnetic_model.loader_shc import load_coeff_shc, load_model_shc, load_model_shc_combined, load_coeff_shc_composed
from eoxmagmod.magnetic_model.loader_igrf import load_model_igrf
from eoxmagmod.magnetic_model.loader_wmm import load_model_wmm
from eoxmagmod.magnetic_model.loader_emm import load_model_emm
from eoxmagmod.magnetic_model import loader_mio, loader_mma
from ..core import group
from .. import catalog, ref
from ..catalog import Constant, Linear, LinearDY, MIO, Composed, Combined, SHModel, DipoleModel, MIOModel, MIOPrimary, POLE, constant, linear, mio
from ..common import KINDS
from ..ref import SPHERICAL
from .c05 import mjd_of_year
from . import c14

INF, NAN = float("inf"), float("nan")
SPH = [(10.0, 20.0, 6371.2), (-55.0, 200.0, 7000.0), (90.0, 0.0, 6371.2), (-90.0, 50.0, 6600.0), (0.0, -180.0, 6481.2)]
PLACES = {kind: np.array([[float(v) for v in ref.convert(np.array(p), SPHERICAL, kind)] for p in SPH]) for kind in KINDS}
PLACES[1] = np.array(SPH)


def year(value):
    return float(mjd_of_year(value)) if np.isfinite(value) else value


def moments(start, end, more=()):
    """ (time, inside) pairs around the interval; inside None when undecided """
    times = [NAN, 0.0, 4.0, -40000.0, 40000.0]
    for edge in (start, end, *more):
        if np.isfinite(edge):
            times += [edge - 1000.0, edge - 1.0, np.nextafter(edge, -INF), edge, np.nextafter(edge, INF), edge + 1.0, edge + 1000.0]
    if np.isfinite(start) and np.isfinite(end):
        times += [(start + end) / 2, start + (end - start) * 1e-3]
    if np.isfinite(start):
        times.append(-INF)
    if np.isfinite(end):
        times.append(INF)
    return [(float(t), bool(start <= t <= end)) for t in times]


def verify(ctx, model, start, end, what, options=({},), frames=None, more=(), forms=True, heavy=False, tol=0.0):
    """ declared validity and the presence of values, for single times and arrays """
    got = tuple(float(v) for v in model.validity)
    if start > end:
        ctx.require(got[0] > got[1] or got == (-INF, -INF), f"{what}: validity {got} of a model which is never valid")
    elif not ctx.close(np.array(got), np.array([start, end]), rtol=1e-15, atol=tol, what=f"{what}: validity"):
        return
    else:
        start, end = got    # the conversion of the calendar is checked above
    pairs = moments(start, end, more)
    times = np.array([t for t, _ in pairs])
    inside = np.array([i for _, i in pairs])
    for kin, kout in (frames or itertools.product(KINDS, KINDS)):
        place = PLACES[kin]
        for option in options:
            name = f"{what} {kin}->{kout} {option}"
            # single times at single and several places
            rows = place[:1] if heavy else place
            for time, valid in pairs:
                field = np.asarray(model.eval(time, rows if forms else rows[0], kin, kout, **option))
                ctx.count(1)
                good = np.isfinite(field) if valid else np.isnan(field)
                ctx.state(what, kin, kout, str(option), repr(time))
                if not ctx.require(bool(good.all()), f"{name}: {'no value' if valid else 'a value'} at the single time {time!r}, validity {start!r} {end!r}"):
                    return
            if not forms:
                continue
            # arrays of times in both orders, and two-dimensional
            for order in (slice(None), slice(None, None, -1)):
                where = np.resize(rows, (len(times), 3))
                field = np.asarray(model.eval(times[order], where, kin, kout, **option))
                single = np.asarray(model.eval(times[order], rows[0], kin, kout, **option))
                ctx.count(2 * len(times))
                for values in (field, single):
                    good = np.where(inside[order, None], np.isfinite(values), np.isnan(values)).all(axis=1)
                    if not ctx.require(bool(good.all()), f"{name}: presence of values within an array of times"
                                       f" {times[order][~good][:3]!r}, validity {start!r} {end!r}"):
                        return
            count = len(times) // 2 * 2
            grid, valid = times[:count].reshape(2, -1), inside[:count].reshape(2, -1)
            field = np.asarray(model.eval(grid, rows[0], kin, kout, **option))
            ctx.count(count)
            ctx.observe(np.nan_to_num(field))
            ctx.require(bool(np.where(valid[..., None], np.isfinite(field), np.isnan(field)).all()), f"{name}: presence of values within a table of times")


# --- sources of the validity of coefficient sets --------------------------------------------

SPANS = {"none": {}, "start": {"validity_start": 5.0}, "end": {"validity_end": 12.5}, "both": {"validity_start": -7.25, "validity_end": 30.0},
         "instant": {"validity_start": 4.0, "validity_end": 4.0}, "empty": {"validity_start": 9.0, "validity_end": 8.0},
         "zero": {"validity_start": 0.0, "validity_end": 0.0}, "to zero": {"validity_end": 0.0}, "from zero": {"validity_start": 0.0},
         "open": {"validity_start": None, "validity_end": None}, "infinite": {"validity_start": -INF, "validity_end": INF}}
NODES = {"single": [5.0], "pair": [0.0, 10.0], "unsorted": [8.0, -3.0, 20.5], "repeated": [0.0, 6.0, 6.0]}
YEAR_SPANS = {"none": {}, "start": {"validity_start": 2000.25}, "end": {"validity_end": 2004.5}, "both": {"validity_start": 1999.0, "validity_end": 2012.125},
              "instant": {"validity_start": 2001.0, "validity_end": 2001.0}, "empty": {"validity_start": 2003.0, "validity_end": 2002.0}}
YEAR_NODES = {"single": [2000.5], "pair": [1999.75, 2003.5], "unsorted": [2010.0, 2000.0, 1900.25], "leap": [1996.0, 2000.0, 2000.99, 2004.999]}


def source_cases(tier):
    for span in SPANS:
        yield ["constant", span, None, 1]
        yield ["mio", span, None, 1]
        for nodes, order in itertools.product(NODES, (1, 2)):
            if not (nodes in ("single", "repeated") and order == 2):
                yield ["linear", span, nodes, order]
    for span in YEAR_SPANS:
        yield ["converted constant", span, None, 1]
        for nodes, order in itertools.product(YEAR_NODES, (1, 2)):
            if nodes != "single" or order == 1:
                yield ["decimal year", span, nodes, order]
                yield ["converted", span, nodes, order]


def default(span, low, high):
    start, end = span.get("validity_start", low), span.get("validity_end", high)
    return (-INF if start is None else start), (INF if end is None else end)


def build(kind, span, nodes, order, salt):
    nm = catalog.nm_full(2)
    if kind in ("constant", "mio", "linear"):
        span = SPANS[span]
        if kind == "constant":
            return Constant(nm, catalog.values(len(nm), salt), **span), default(span, -INF, INF)
        if kind == "mio":
            return mio(salt=salt, **span), default(span, -INF, INF)
        nodes = NODES[nodes]
        values = ref.generic(len(nm), len(nodes), salt=salt) * 100
        return Linear(nm, values, nodes, spline_order=order, **span), default(span, min(nodes), max(nodes))
    span = YEAR_SPANS[span]
    convert = em.decimal_year_to_mjd2000
    if kind == "converted constant":
        start, end = default(span, -INF, INF)
        return Constant(nm, catalog.values(len(nm), salt), to_mjd2000=convert, **{"validity_start": -INF, "validity_end": INF, **span}), (year(start), year(end))
    nodes = YEAR_NODES[nodes]
    values = ref.generic(len(nm), len(nodes), salt=salt) * 100
    start, end = default(span, min(nodes), max(nodes))
    if kind == "converted":
        return Linear(nm, values, nodes, spline_order=order, to_mjd2000=convert, **span), (year(start), year(end))
    return LinearDY(nm, values, nodes, spline_order=order, **span), (year(start), year(end))


OPTIONS = ({}, {"scale": -0.5}, {"max_degree": 1}, {"min_degree": 2, "scale": 3.0}, {"min_degree": 5})


@group("C15", "sources of validity", source_cases, chunk=2)
def sources(ctx, case):
    kind, span, nodes, order = case
    coefs, (start, end) = build(kind, span, nodes, order, 900)
    models = [MIOModel(coefs, POLE)] if kind == "mio" else [SHModel(coefs), DipoleModel(coefs, POLE)]
    extra = [year(v) for v in YEAR_NODES[nodes]] if nodes in YEAR_NODES and kind not in ("linear",) else list(NODES.get(nodes, ()))
    for num, model in enumerate(models):
        verify(ctx, model, start, end, f"{case} {type(model).__name__}", OPTIONS if ctx.thorough or num == 0 else OPTIONS[:2], more=extra, tol=2e-9,
               frames=None if ctx.thorough or num == 0 else ((1, 1), (0, 2), (2, 0)))
    if kind != "mio":
        for time, inside in moments(*(float(v) for v in coefs.validity), more=extra):
            ctx.require(bool(coefs.is_valid(time)) == inside, f"is_valid at {time!r}")


# --- sequences and sums of sets ----------------------------------------------------------------

INTERVALS = [(-INF, INF), (0.0, 10.0), (10.0, 20.0), (5.0, 15.0), (-INF, 5.0), (15.0, INF), (7.0, 7.0), (20.0, 31.5)]
KIND = ("constant", "linear", "decimal")


def member(kind, span, salt):
    nm = catalog.nm_full(2)
    if kind == "constant":
        return Constant(nm, catalog.values(len(nm), salt), validity_start=span[0], validity_end=span[1])
    values = ref.generic(len(nm), 2, salt=salt) * 100
    if kind == "linear":
        return Linear(nm, values, [0.0, 20.0], validity_start=span[0], validity_end=span[1])
    out = LinearDY(nm, values, [2000.0, 2000.5])
    out.validity = span         # in MJD2000
    return out


def hull(spans):
    """ union of touching intervals, None with gaps """
    spans = sorted(spans)
    start, end = spans[0]
    for a, b in spans[1:]:
        if a > end:
            return None
        end = max(end, b)
    return start, end


def intersection(spans):
    return max(a for a, _ in spans), min(b for _, b in spans)


def group_cases(tier):
    for size in (2, 3):
        for kinds in (("constant", "linear", "decimal") if tier == "quick" else itertools.product(KIND, repeat=1)):
            for picks in itertools.product(range(len(INTERVALS)), repeat=size):
                if size == 3 and tier == "quick" and (sum(picks) + KIND.index(kinds if isinstance(kinds, str) else kinds[0])) % 3:
                    continue
                yield [kinds if isinstance(kinds, str) else kinds[0], list(picks)]


@group("C15", "sequences and sums of sets", group_cases, chunk=8)
def groups(ctx, case):
    kind, picks = case
    spans = [INTERVALS[k] for k in picks]
    shift = KIND.index(kind)
    items = [member(KIND[(shift + k) % 3], s, 910 + k) for k, s in enumerate(spans)]
    frames = ((1, 1), (0, 2)) if not ctx.thorough else None
    edges = [v for s in spans for v in s]
    both = intersection(spans)
    for cls, args in ((SHModel, ()), (DipoleModel, (POLE,))):
        verify(ctx, cls(Combined(*items), *args), *both, f"sum {case} {cls.__name__}", frames=frames, more=edges)
        if hull(spans):
            verify(ctx, cls(Composed(*items), *args), *hull(spans), f"sequence {case} {cls.__name__}", frames=frames, more=edges)
    if not hull(spans):
        ctx.raises(lambda: Composed(*items), "sequence with gaps", (ValueError,))


# --- smallest gaps ------------------------------------------------------------------------------------

@group("C15", "smallest gaps", lambda tier: [[e, k, kind] for e in (0.0, 10.0, -700.25, 8000.5, 1e5, -1e-3) for k in range(9) for kind in range(3)], chunk=4)
def gaps(ctx, case):
    """ sets touching each other make a sequence, any gap is refused """
    end, number, shift = case
    start = [end - 3.0, np.nextafter(end, -INF), end, np.nextafter(end, INF), end + 1e-10 * max(1, abs(end)), end + 1e-7, end + 1e-5, end + 0.001, end + 1.0][number]
    first, second, last = (end - 100.0, end), (start, end + 50.0), (end + 50.0, end + 70.0)
    make = lambda spans: [member(KIND[(shift + k) % 3], s, 935 + k) for k, s in enumerate(spans)]
    wide = (end - 1.0, end + 2.0)
    for spans in itertools.permutations((first, second, last)):
        ctx.count(1)
        if start > end:
            ctx.raises(lambda: Composed(*make(spans)), f"gap of {start - end!r} days after {end!r}", (ValueError,))
        else:
            ctx.same(np.array(Composed(*make(spans)).validity), [end - 100.0, end + 70.0], f"sets touching at {end!r}")
    for spans in itertools.permutations((first, second, wide)):
        ctx.count(1)
        ctx.same(np.array(Composed(*make(spans)).validity), [end - 100.0, end + 50.0], f"gap at {end!r} covered by another set")


# --- composed geomagnetic models -------------------------------------------------------------------

def parts(key):
    """ model, validity """
    if key == "unlimited":
        return SHModel(constant(salt=920)), (-INF, INF)
    if key == "linear":
        return SHModel(linear(salt=921)), (0.0, 30.0)
    if key == "late":
        return SHModel(linear(salt=922, times=(30.0, 45.0))), (30.0, 45.0)
    if key == "later":
        return SHModel(linear(salt=923, times=(31.0, 45.0))), (31.0, 45.0)
    if key == "dipole":
        return DipoleModel(constant(salt=924, validity_start=-5.0, validity_end=8.0), POLE), (-5.0, 8.0)
    if key == "mio":
        return MIOModel(mio(salt=925, validity_start=4.0), POLE), (4.0, INF)
    if key == "primary":
        below = MIOModel(mio(salt=926, internal=False, validity_start=-2.0, validity_end=20.0), POLE)
        above = MIOModel(mio(salt=927, validity_start=-2.0, validity_end=20.0), POLE)
        return MIOPrimary(below, above), (-2.0, 20.0)
    if key == "sequence":
        return SHModel(Composed(linear(salt=928, times=(-10.0, 4.0)), constant(salt=929, validity_start=4.0, validity_end=12.0))), (-10.0, 12.0)
    if key == "years":
        return SHModel(linear(salt=930, cls=LinearDY, times=(2000.0, 2000.05))), (0.0, year(2000.05))
    raise KeyError(key)


PARTS = ["unlimited", "linear", "late", "later", "dipole", "mio", "primary", "sequence", "years"]


def sum_cases(tier):
    yield []
    for size in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        for picks in itertools.combinations_with_replacement(PARTS, size) if size > 2 else itertools.product(PARTS, repeat=size):
            yield list(picks)


@group("C15", "sums of models", sum_cases, chunk=4)
def sums(ctx, case):
    pieces = [parts(k) for k in case]
    spans = [(-INF, INF)] + [s for _, s in pieces]
    start, end = intersection(spans)
    model = em.ComposedGeomagneticModel()
    inner = em.ComposedGeomagneticModel()
    for num, (piece, _) in enumerate(pieces):
        model.push(piece, scale=(1.0, -0.5, 0.0)[num % 3], **({"max_degree": 1} if num == 1 else {}))
        inner.push(piece)
    outer = em.ComposedGeomagneticModel()
    outer.push(inner, scale=2.0)
    outer.push(SHModel(constant(salt=931)))
    edges = [v for s in spans for v in s]
    frames = None if ctx.thorough or len(case) < 2 else ((1, 1), (0, 2), (2, 0))
    verify(ctx, model, start, end, f"sum of {case}", OPTIONS[:2] if len(case) > 2 else OPTIONS[:4], frames=frames, more=edges, tol=2e-9)
    verify(ctx, outer, start, end, f"nested sum of {case}", frames=frames, more=edges, tol=2e-9)


# --- MIO primary models with different validity of the two parts -----------------------------------------

MIO_SPANS = [(-INF, INF), (0.0, 30.0), (5.0, INF), (-INF, 12.0)]


@group("C15", "ionospheric models", lambda tier: [list(s) + [f] for s in MIO_SPANS for f in range(4)], chunk=1)
def ionosphere(ctx, case):
    start, end, form = case
    span = {"validity_start": start, "validity_end": end}
    external, internal = mio(salt=932, internal=False, **span), mio(salt=933, **span)
    model = [lambda: MIOModel(internal, POLE), lambda: MIOModel(external, POLE), lambda: MIOPrimary(MIOModel(external, POLE), MIOModel(internal, POLE)),
             lambda: MIOPrimary(MIOModel(external, POLE), MIOModel(internal, POLE), height=400.0)][form]()
    options = [{}, {"f107": 70.0}, {"lat_sol": 10.0, "lon_sol": 20.0}, {"f107": 0.0, "lat_sol": -20.0, "lon_sol": 180.0, "scale": 2.0}, {"max_degree": 1}, {"min_degree": 3}]
    verify(ctx, model, start, end, f"ionosphere {form}", options)
    # missing indices leave the values undefined but nothing else
    times = np.array([t for t, _ in moments(start, end)])
    inside = np.array([i for _, i in moments(start, end)])
    for flux in (np.where(np.arange(len(times)) % 2, NAN, 70.0), np.where(np.arange(len(times)) % 2, 70.0, NAN)):
        field = model.eval(times, PLACES[1][0], f107=flux)
        good = inside & np.isfinite(flux)
        ctx.count(len(times))
        ctx.require(bool(np.where(good[:, None], np.isfinite(field), np.isnan(field)).all()), "presence of values with missing indices")


PRIMARY_SPANS = [(-INF, INF), (0.0, 30.0), (5.0, 40.0), (-10.0, 12.0), (30.0, 45.0), (31.0, 50.0), (8.0, 8.0)]


@group("C15", "parts of ionospheric models", lambda tier: [list(p) for p in itertools.product(range(len(PRIMARY_SPANS)), repeat=2)], chunk=2)
def ionosphere_parts(ctx, case):
    """ two parts with any two validity intervals """
    below, above = (PRIMARY_SPANS[k] for k in case)
    model = MIOPrimary(*(MIOModel(mio(salt=936 + k, internal=bool(k), validity_start=s[0], validity_end=s[1]), POLE) for k, s in enumerate((below, above))))
    start, end = intersection([below, above])
    got = tuple(model.validity)
    ctx.state(tuple(case))
    if start <= end:
        ctx.require(got == (start, end), f"validity {got} of a model of parts valid {below} and {above}")
    else:
        ctx.require(got[0] > got[1] or got == (-INF, -INF), f"validity {got} of a model of parts valid {below} and {above}, which is never complete")
    rows = np.array([(10.0, 20.0, 6371.2), (-55.0, 200.0, 6371.2 + 110.0), (10.0, 20.0, 6371.2 + 110.5), (60.0, 0.0, 7000.0)])
    for time, good in moments(start, end, [v for s in (below, above) for v in s]):
        field = np.asarray(model.eval(time, rows))
        both = np.asarray(model.eval(np.full(4, time), rows))
        ctx.count(2)
        for k in range(4):
            for values in (field, both):
                ctx.require(bool((np.isfinite(values[k]) if good else np.isnan(values[k])).all()),
                            f"{'no value' if good else 'a value'} at {time!r} in the row {k} of {case}")
    # the sum with another model has the same validity
    total = em.ComposedGeomagneticModel()
    total.push(model)
    total.push(SHModel(constant(salt=938, validity_start=0.0, validity_end=1000.0)))
    start, end = intersection([below, above, (0.0, 1000.0)])
    got = tuple(total.validity)
    ctx.require(got == (start, end) if start <= end else got[0] > got[1] or got == (-INF, -INF), f"validity {got} of a sum instead of {(start, end)}")
    if start <= end:
        for time, inside in moments(start, end):
            field = np.asarray(total.eval(time, rows))
            if inside:
                ctx.require(bool(np.isfinite(field).all()), f"no value of a sum at {time!r}")


# --- model files ----------------------------------------------------------------------------------------

def heads():
    """ header validity x snapshots """
    for count in (1, 2, 3):
        for validity in (None, (2000.0, 2005.5), (1990.125, 2030.0), (2004.0, 2004.0)):
            yield count, validity


def file_cases(tier):
    for count, validity in heads():
        for order in (1, 2, 6):
            for years in (False, True):
                yield ["shc", count, validity, order, years]
                if count > 1 and not validity:
                    for turn in range(1, 3 * (count - 1)):
                        yield ["shc", count, validity, order, years, turn]
    for count in (1, 2, 3, 5):
        yield ["igrf", count]
    for epoch in (2010.0, 2015.0, 1999.5):
        yield ["wmm", epoch]
        yield ["emm", epoch]
    for extent in range(len(c14.MIO_EXTENTS)):
        yield ["mio", extent]
    for family in c14.FAMILIES:
        for spans in ([[0.0, 0.0625, 0.125]], [[0.0, 1.0], [1.25, 2.0, 3.0]], [[0.0, 1.0], [1.0, 2.0]], [[0.0], [1.0]], [[-400.5, -400.0], [0.0, 0.5], [8000.0, 8001.0]]):
            yield ["mma", family, spans]


@group("C15", "model files", file_cases, chunk=2)
def files(ctx, case):
    what = case[0]
    nm = c14.PATTERNS["full 3"]
    if what == "shc":
        _, count, validity, order, years, *turn = case
        # the snapshots may be listed in any order
        orders = list(itertools.permutations(c14.YEARS[count]))
        snapshots = list(orders[turn[0] % len(orders)] if turn else orders[0])
        path = c14.write(c14.shc_text(nm, c14.numbers(len(nm), count, 940), snapshots, order, validity=validity))
        model = load_model_shc(path, interpolate_in_decimal_years=years)
        if validity:
            start, end = year(validity[0]), year(validity[1])
        elif count == 1:
            start, end = -INF, INF
        else:
            start, end = year(min(snapshots)), year(max(snapshots))
        more = [year(v) for v in snapshots]
        verify(ctx, model, start, end, f"{case}", OPTIONS[:4], more=more, tol=2e-9)
        static = c14.numbers(len(nm), 1, 941)
        other = c14.scratch("-static.shc")
        with open(other, "w", encoding="ascii") as fout:
            fout.write(c14.shc_text(nm, static, [2000.0], 1))
        verify(ctx, load_model_shc_combined(path, other, interpolate_in_decimal_years=years), start, end, f"{case} combined", more=more, tol=2e-9, frames=((1, 1), (0, 0)))
        return
    if what == "igrf":
        years = [1995.0 + 5 * k for k in range(case[1])]
        path = c14.write(c14.igrf_text(nm, c14.numbers(len(nm), len(years), 942), [0.5] * len(nm), years, ""))
        verify(ctx, load_model_igrf(path), year(years[0]), year(years[-1] + 5), f"{case}", OPTIONS[:2], more=[year(v) for v in years], tol=2e-9)
        return
    rows = c14.wmm_rows(3)
    if what == "wmm":
        values = np.round(ref.generic(len(rows), 4, salt=943) * 900, 1)
        lines = ["    %.1f            WMM-TEST      09/18/2018" % case[1]] + [" %2d %2d  %9.1f %9.1f %9.1f %9.1f" % (r + tuple(v)) for r, v in zip(rows, values)]
        path = c14.write("\n".join(lines + ["9" * 48]) + "\n", ".COF")
        verify(ctx, load_model_wmm(path), year(case[1]), year(case[1] + 5), f"{case}", OPTIONS[:2], tol=2e-9)
        return
    if what == "emm":
        _, _, static, secular = c14.emm_files(rows, c14.wmm_rows(2), 0, 0, (case[1], case[1]))
        verify(ctx, load_model_emm(static, secular), year(case[1]), year(case[1] + 5), f"{case}", OPTIONS[:2], tol=2e-9)
        return
    if what == "mma":
        _, family, spans = case
        parts = [c14.mma_data(family, k, times) for k, times in enumerate(spans)]
        paths = [c14.write_cdf(c14.scratch(f"-{k}.cdf"), family, part) for k, part in enumerate(parts)]
        model = getattr(loader_mma, "load_model_swarm_mma_" + c14.FAMILIES[family][0])(*paths)
        sets = range(len(c14.FAMILIES[family][1]))
        start = max(parts[0][k][2][0] for k in sets)
        end = min(parts[-1][k][2][-1] for k in sets)
        verify(ctx, model, start, end, f"{case}", OPTIONS[:2], more=[t for s in spans for t in s], tol=1e-9, frames=((1, 1), (0, 2), (2, 0)))
        return
    nm, extent = c14.PATTERNS["full 3"], c14.MIO_EXTENTS[case[1]]
    path = c14.write(c14.mio_text(nm, c14.mio_values(nm, extent, 945), c14.mio_values(nm, extent, 946), extent, 10.0, -72.0, 110.0, 0.015))
    for load in (loader_mio.load_model_swarm_mio_internal, loader_mio.load_model_swarm_mio_external):
        verify(ctx, load(path), -INF, INF, f"{case}", ({}, {"f107": 80.0}), frames=((1, 1), (0, 2), (2, 0)))


# --- bundled models ------------------------------------------------------------------------------------

BUNDLED = {
    "IGRF11": lambda: load_model_igrf(bundled.IGRF11), "WMM_2015": lambda: load_model_wmm(bundled.WMM_2015),
    **{name: (lambda name=name: load_model_shc(getattr(bundled, name))) for name in c14.SHC_FILES if name not in ("LCS1", "MF7")},
}
HEAVY = {name: (lambda name=name: load_model_shc(getattr(bundled, name))) for name in ("LCS1", "MF7")}


def header(name):
    """ validity stated by the file, read independently """
    with open(getattr(bundled, name), encoding="ascii") as fin:
        rows = [line.split() for line in fin if line.strip() and not line.lstrip().startswith("#")]
    if name == "WMM_2015":
        return float(rows[0][0]), float(rows[0][0]) + 5
    if name == "IGRF11":
        years = [float(v) for v in rows[1][3:-1]]
        return years[0], years[-1] + 5
    head, years = rows[0], [float(v) for v in rows[1]]
    if len(head) > 5:
        return float(head[5]), float(head[6])
    return (-INF, INF) if len(years) == 1 else (years[0], years[-1])


@group("C15", "bundled models", lambda tier: [[k] for k in HEAVY] + [[k] for k in BUNDLED], chunk=1)
def bundled_models(ctx, case):
    name, = case
    start, end = (year(v) for v in header(name))
    model = {**BUNDLED, **HEAVY}[name]()
    heavy = name in HEAVY or int(model.degree) > 60
    verify(ctx, model, start, end, name, ({"max_degree": 20},) if heavy else ({}, {"scale": -1.0, "max_degree": 5}), heavy=True,
           frames=((1, 1),) if heavy else None if ctx.thorough else ((1, 1), (0, 0), (2, 1)), tol=2e-9)


PAIRS = [("CHAOS7_CORE_X18", "CHAOS7_CORE_X18_PREDICTION"), ("CHAOS8_CORE_V1", "CHAOS8_CORE_V1_PREDICTION"), ("IGRF12", "SIFM"), ("SIFM", "CHAOS8_CORE_V1")]


@group("C15", "sequences of bundled models", lambda tier: [[a, b, f] for a, b in PAIRS for f in (0, 1)], chunk=1)
def bundled_sequences(ctx, case):
    first, second, swap = case
    names = (second, first) if swap else (first, second)
    spans = [tuple(year(v) for v in header(n)) for n in names]
    model = SHModel(load_coeff_shc_composed(*(getattr(bundled, n) for n in names)))
    start, end = hull(spans)
    verify(ctx, model, start, end, f"{names}", ({"max_degree": 6},), heavy=True, frames=((1, 1),), more=[v for s in spans for v in s], tol=2e-9)


# --- every catalogue model, all two-step histories of times -------------------------------------------------

SPAN = {"constant": (-INF, INF), "constant external": (-INF, INF), "linear": (0.0, 30.0), "order 1": (0.0, 30.0), "decimal year": (0.0, year(2000.05)),
        "composed": (0.0, 30.0), "combined": (0.0, 15.0), "mixed scales": (0.0, year(2000.02)), "nested": (0.0, year(2000.06)), "dipole": (0.0, 30.0),
        "dipole combined": (0.0, 30.0), "mio": (-INF, INF), "mio external": (0.0, 30.0), "mio primary": (0.0, 30.0), "sum": (0.0, 30.0), "empty sum": (-INF, INF)}


@group("C15", "catalogue models", lambda tier: [[k] for k in catalog.MODELS], chunk=1)
def catalogue(ctx, case):
    name, = case
    start, end = SPAN[name]
    if name == "mixed scales":
        end = min(30.0, end)
    model = catalog.MODELS[name]
    verify(ctx, model, start, end, name, ({}, {"scale": 2.0}, {"max_degree": 1}) if name != "empty sum" else ({},), tol=2e-9)
    # the values at a time do not depend on the other times of the array
    times = [t for t, _ in moments(start, end)]
    alone = {k: np.asarray(model.eval(t, PLACES[1][0])) for k, t in enumerate(times)}
    for a, b in itertools.product(range(len(times)), repeat=2):
        field = np.asarray(model.eval(np.array([times[a], times[b]]), PLACES[1][0]))
        ctx.count(1)
        if not ctx.close(field, np.array([alone[a], alone[b]]), rtol=1e-9, atol=1e-9, what=f"{name}: times {times[a]!r} {times[b]!r} in one array"):
            return
