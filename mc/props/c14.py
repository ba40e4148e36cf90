""" C14 - model files load to exactly the model they describe """
import itertools
import os
import tempfile
import numpy as np
import eoxmagmod as em
from eoxmagmod import data as bundled
from eoxmagmod.magnetic_model.loader_shc import (
    load_coeff_shc, load_coeff_shc_combined, load_coeff_shc_composed, load_model_shc, load_model_shc_combined,
)
from eoxmagmod.magnetic_model.loader_igrf import load_coeff_igrf, load_model_igrf
from eoxmagmod.magnetic_model.loader_wmm import load_coeff_wmm, load_model_wmm
from eoxmagmod.magnetic_model.loader_emm import load_coeff_emm, load_model_emm
from eoxmagmod.magnetic_model import loader_mio, loader_mma
from eoxmagmod.magnetic_model.coefficients import CombinedSHCoefficients, ComposedSHCoefficients
from eoxmagmod.magnetic_model.model import SphericalHarmomicGeomagneticModel
from ..core import group
from .. import ref, catalog
from ..ref import LD, SPHERICAL
from .c05 import reference, year_of_mjd, mjd_of_year
from .c13 import dense, mio_exact, table

INF = float("inf")
PLACE = np.array([41.0, -77.0, 6500.0])


def scratch(suffix=".txt"):
    return os.path.join(tempfile.gettempdir(), f"c14-{os.getpid()}{suffix}")


def write(text, suffix=".txt"):
    path = scratch(suffix)
    with open(path, "w", encoding="ascii") as fout:
        fout.write(text)
    return path


def as_mjd(year):
    return float(mjd_of_year(year)) if np.isfinite(year) else year


# --- what the loaded coefficients have to be ---------------------------------------

def check(ctx, coefs, nm, series, years, order, domain, validity, internal=True, what="", degrees=True, tol=1e-9):
    """ coefs: the loaded object; series[K, N] at decimal years[N] """
    nm = np.asarray(nm)
    if degrees and not ctx.require((int(coefs.degree), int(coefs.min_degree)) == (nm[:, 0].max(), nm[:, 0].min()),
                                   f"{what}: degrees {coefs.min_degree}..{coefs.degree}"):
        return False
    if not ctx.close(np.array(coefs.validity, float), np.array(validity, float), rtol=1e-15, atol=1e-9, what=f"{what}: validity"):
        return False
    if not ctx.require(bool(coefs.is_internal) == internal, f"{what}: internal {coefs.is_internal}"):
        return False
    perm = np.argsort(years, kind="stable")
    years = [float(years[k]) for k in perm]
    series = np.asarray(series, float)[:, perm]
    nodes = [LD(y) for y in years] if domain == "year" else [LD(as_mjd(y)) for y in years]
    if len(years) == 1:
        times = [0.0, -36524.25, 12345.6]
    else:
        mjd = [as_mjd(y) for y in years]
        times = mjd[:4] + mjd[-2:] + [(a + b) / 2 for a, b in zip(mjd[:4], mjd[1:5])] + [mjd[0] - 30.0, mjd[-1] + 50.0, mjd[0] + 0.125 * (mjd[1] - mjd[0])]
    for time in times:
        if len(years) == 1:
            values, scale = series[:, 0], 1.0
        else:
            x = year_of_mjd(time) if domain == "year" else LD(time)
            close = [k for k, v in enumerate(nodes) if abs(float(v - x)) < 1e-9 and float(v - x) != 0]
            if close:           # conversion rounding may fall to either side of a node
                x = nodes[close[0]]
                if order == 1:
                    continue
            values, scale = reference(x, nodes, series, "C0" if order == 1 else "C1", True)
        exact = np.zeros((ref.nterms(int(nm[:, 0].max())), 2))
        for (n, m), v in zip(nm.tolist(), np.asarray(values, float)):
            exact[n * (n + 1) // 2 + abs(m), int(m < 0)] = v
        got, degree = coefs(time)
        ctx.count(1)
        if not ctx.close(catalog.padded(got, max(len(exact), len(got))), catalog.padded(exact, max(len(exact), len(got))), rtol=0,
                         atol=tol * (1 + np.abs(series).max()), what=f"{what}: coefficients at {time!r}"):
            return False
    return exact


def check_model(ctx, model, coefs, internal=True, what="", times=None):
    """ the model evaluates the field of the coefficients inside of the validity """
    start, end = (float(v) for v in coefs.validity)
    ctx.close(np.array(model.validity, float), np.array([start, end]), rtol=0, atol=0, what=f"{what}: validity of the model")
    ctx.require((int(model.degree), int(model.min_degree)) == (int(coefs.degree), int(coefs.min_degree)), f"{what}: degrees of the model")
    inside = [t for t in (start, end, (start + end) / 2) if np.isfinite(t)] or [0.0]
    for time in inside:
        coef, degree = coefs(time)
        exact = -ref.field(PLACE, coef, SPHERICAL, SPHERICAL, degree, internal)[1].astype(float)
        ctx.count(1)
        if not ctx.close(model.eval(time, PLACE), exact, rtol=1e-9, atol=1e-9 * (1 + np.abs(coef).max()), what=f"{what}: field at {time!r}"):
            return
    for time in (start - 1.0, end + 1.0):
        if np.isfinite(time):
            ctx.require(bool(np.all(np.isnan(model.eval(time, PLACE)))), f"{what}: field outside of the validity at {time!r}")


# --- SHC -----------------------------------------------------------------------------

PATTERNS = {
    "dipole": [(1, 0), (1, 1), (1, -1)],
    "full 3": [tuple(v) for v in catalog.nm_full(3).tolist()],
    "lithosphere": [tuple(v) for v in catalog.nm_full(4, 3).tolist()],
    "sparse": [(2, -1), (4, 4)],
    "unsorted": [(3, -3), (1, 0), (2, 2), (1, -1), (3, 0)],
    "monopole": [(0, 0), (1, 0)],
    "single": [(2, 0)],
}
YEARS = {1: [2010.0], 2: [2000.0, 2004.5], 3: [1999.25, 2000.0, 2000.75], 5: [1890.0, 1900.0, 1999.0, 2000.5, 2025.0]}
COMMENTS = ["", "# one comment\n", "# one\n\n   # two 1 2 3\n#\n", "\n\n"]


def numbers(count, times, salt, zeros=False):
    out = np.round(ref.generic(count, times, salt=salt) * 30000, 2)
    if zeros:
        out[::2] = 0
        out[-1] = 7.5
    return out


STYLES = [lambda v: "%.2f" % v, lambda v: "%+.9E" % v, lambda v: "%17.4f" % v]


def shc_text(nm, series, years, order=2, comment="", validity=None, style=0, header=None, ntime=None, tail=""):
    nmin, nmax = min(n for n, _ in nm), max(n for n, _ in nm)
    head = f"{nmin} {nmax} {len(years) if ntime is None else ntime} {order} 1"
    if validity:
        head += " %.4f %.4f" % tuple(validity)
    sep = " " if style == 0 else "\t" if style == 1 else "   "
    lines = [comment + (head if header is None else header) + tail, sep.join(["", ""] + ["%.4f" % y for y in years])]
    for (n, m), row in zip(nm, series):
        lines.append(sep.join(["", str(n), str(m)] + [STYLES[style](v) for v in row]))
    return "\n".join(lines) + "\n"


def shc_cases(tier):
    for pattern, count, order, style in itertools.product(PATTERNS, YEARS, (1, 2, 3, 6), range(3)):
        for comment, validity in itertools.product(range(4), (None, "wide", "narrow")):
            if tier == "quick" and (comment + style + order + count + (0 if validity is None else 1 if validity == "wide" else 2)) % 3:
                continue
            yield [pattern, count, order, style, comment, validity]


@group("C14", "SHC files", shc_cases, chunk=16)
def shc(ctx, case):
    pattern, count, order, style, comment, validity = case
    nm, years = PATTERNS[pattern], YEARS[count]
    series = numbers(len(nm), count, 800 + len(nm), zeros=pattern == "lithosphere")
    limits = {None: None, "wide": (years[0] - 3.25, years[-1] + 2.5), "narrow": (years[0] + 0.125, years[-1] + 0.25)}[validity]
    if limits is None:
        expected = (-INF, INF) if count == 1 else (as_mjd(years[0]), as_mjd(years[-1]))
    else:
        expected = tuple(as_mjd(v) for v in limits)
    path = write(shc_text(nm, series, years, order, COMMENTS[comment], limits, style, tail=" # tail 9 9" if comment == 1 else ""), ".shc")
    rule = min(order, 2)
    what = "SHC"
    coefs = load_coeff_shc(path)
    if check(ctx, coefs, nm, series, years, rule, "mjd", expected, what=what) is False:
        return
    check_model(ctx, load_model_shc(path), coefs, what=what)
    # options of the loader
    dec = load_coeff_shc(path, interpolate_in_decimal_years=True)
    check(ctx, dec, nm, series, years, rule, "year", expected, what=what + " in decimal years")
    for over in (1, 2):
        check(ctx, load_coeff_shc(path, spline_order=over), nm, series, years, over if count > 1 else 1, "mjd", expected, what=f"{what} with spline order {over}")
    start, end = years[0] + 0.5, years[-1] + 0.75
    check(ctx, load_coeff_shc(path, validity_start=start, validity_end=end), nm, series, years, rule, "mjd",
          (as_mjd(start), as_mjd(end)), what=what + " with another validity")
    check(ctx, load_coeff_shc(path, is_internal=False), nm, series, years, rule, "mjd", expected, internal=False, what=what + " external")
    with open(path, encoding="ascii") as fin:
        check(ctx, load_coeff_shc(fin), nm, series, years, rule, "mjd", expected, what=what + " as an open file")
    ctx.state(*case)


@group("C14", "SHC snapshots out of order", lambda tier: [[list(p), o] for n in (2, 3, 4) for p in itertools.permutations(range(n)) for o in (1, 2)], chunk=4)
def shc_order(ctx, case):
    perm, order = case
    years = [1999.5, 2000.0, 2001.25, 2010.0][:len(perm)]
    nm = PATTERNS["unsorted"]
    series = numbers(len(nm), len(perm), 810)
    path = write(shc_text(nm, series[:, perm], [years[k] for k in perm], order), ".shc")
    for flag in (False, True):
        coefs = load_coeff_shc(path, interpolate_in_decimal_years=flag)
        check(ctx, coefs, nm, series, years, order, "year" if flag else "mjd", (as_mjd(years[0]), as_mjd(years[-1])), what=f"order {perm}")


def several_cases(tier):
    names = ["dipole", "full 3", "lithosphere", "sparse"]
    for size in (1, 2, 3):
        for combo in itertools.product(range(4), repeat=size):
            if size == 3 and tier == "quick" and sum(combo) % 3:
                continue
            yield [names[k] for k in combo]


@group("C14", "several SHC files", several_cases, chunk=4)
def several(ctx, case):
    """ combined and composed from files, and mixed with loaded objects """
    spans = [[2000.0, 2001.0, 2002.0], [2002.0, 2004.5], [2004.5, 2006.0]]
    paths, parts, wide = [], [], []
    for k, name in enumerate(case):
        nm = PATTERNS[name]
        series = numbers(len(nm), len(spans[k]), 820 + k)
        paths.append(write(shc_text(nm, series, spans[k]), f"-{k}.shc"))
        parts.append((nm, series, spans[k]))
        wide.append(write(shc_text(nm, series[:, :2], [2000.0 + k, 2010.0 - k]), f"-wide{k}.shc"))
    single = [load_coeff_shc(p) for p in paths]
    for load, model in ((load_coeff_shc_composed, load_model_shc), (load_coeff_shc_composed, None)):
        coefs = load(*paths) if model else load(single[0], *paths[1:])
        ctx.close(np.array(coefs.validity, float), [as_mjd(spans[0][0]), as_mjd(spans[len(case) - 1][-1])], rtol=0, atol=1e-9, what="validity of the sequence")
        for k in range(len(case)):
            for frac in (0.25, 0.75):
                time = as_mjd(spans[k][0] + frac * (spans[k][-1] - spans[k][0]))
                got, exact = coefs(time)[0], single[k](time)[0]
                ctx.count(1)
                ctx.close(catalog.padded(got, 16), catalog.padded(exact, 16), rtol=0, atol=1e-9, what=f"file {k} of the sequence at {time!r}")
        if model:
            check_model(ctx, model(*paths), coefs, what="sequence")
            dec = load(*paths, interpolate_in_decimal_years=True)
            nm, series, years = parts[0]
            time = as_mjd(years[0]) + 100.3
            exact = load_coeff_shc(paths[0], interpolate_in_decimal_years=True)(time)[0]
            ctx.close(catalog.padded(dec(time)[0], 16), catalog.padded(exact, 16), rtol=0, atol=1e-9, what="options of the sequence")
    every = [load_coeff_shc(p) for p in wide]
    for coefs in (load_coeff_shc_combined(*wide), load_coeff_shc_combined(every[0], *wide[1:])):
        ctx.close(np.array(coefs.validity, float), [as_mjd(2000.0 + len(case) - 1), as_mjd(2010.0 - len(case) + 1)], rtol=0, atol=1e-9, what="validity of the sum")
        time = as_mjd(2005.125)
        exact = sum(catalog.padded(c(time)[0], 16) for c in every)
        ctx.close(catalog.padded(coefs(time)[0], 16), exact, rtol=0, atol=1e-8, what="sum of the files")
    check_model(ctx, load_model_shc_combined(*wide), coefs, what="sum")


OPTIONS = [{}, {"interpolate_in_decimal_years": True}, {"spline_order": 1}, {"spline_order": 2}, {"is_internal": False},
           {"interpolate_in_decimal_years": True, "spline_order": 1}, {"validity_start": 2001.5}, {"validity_end": 2008.25},
           {"validity_start": 2000.5, "validity_end": 2007.5, "is_internal": False}]


@group("C14", "options of several SHC files", lambda tier: [[list(c), k] for n in (1, 2, 3) for c in itertools.product(range(3), repeat=n) for k in range(len(OPTIONS))], chunk=8)
def several_options(ctx, case):
    """ the options of the loaders of several files apply to each of the files """
    combo, number = case
    options = OPTIONS[number]
    names = ["dipole", "full 3", "lithosphere"]
    sums, chain = [], []
    for k, kind in enumerate(combo):
        nm = PATTERNS[names[kind]]
        series = numbers(len(nm), 3, 840 + 3 * k + kind)
        years = [2000.0 + k, 2004.0 + k, 2010.0 - k]
        sums.append(write(shc_text(nm, series, years, 2), f"-sum{k}.shc"))
        chain.append(write(shc_text(nm, series, [2000.0 + 3 * k, 2001.5 + 3 * k, 2003.0 + 3 * k], 2), f"-chain{k}.shc"))

    def outcome(make, evaluate):
        try:
            item = make()
        except ValueError:
            return None
        return item if item is None else evaluate(item)

    times = [as_mjd(y) for y in (1999.0, 2000.0, 2001.0, 2001.75, 2002.5, 2004.25, 2005.5, 2007.75, 2009.0, 2011.0)]

    def table_of(coefs):
        rows = [np.concatenate([catalog.padded(coefs(t)[0], 28).ravel(), np.array(coefs.validity, float), [coefs.is_internal, coefs.degree, coefs.min_degree]]) for t in times]
        return np.array(rows)

    def field_of(model):
        return np.array([np.concatenate([model.eval(t, PLACE), np.array(model.validity, float)]) for t in times])

    for load, load_model, cls, paths in ((load_coeff_shc_combined, load_model_shc_combined, CombinedSHCoefficients, sums),
                                         (load_coeff_shc_composed, load_model_shc, ComposedSHCoefficients, chain)):
        exact = outcome(lambda: cls(*[load_coeff_shc(p, **options) for p in paths]), table_of)
        if exact is None:
            ctx.raises(lambda: load(*paths, **options), f"{case}")
            ctx.raises(lambda: load_model(*paths, **options), f"{case}")
            continue
        ctx.count(len(times))
        ctx.close(table_of(load(*paths, **options)), exact, rtol=1e-13, atol=1e-9, what=f"coefficients with the options {options}")
        expected = field_of(SphericalHarmomicGeomagneticModel(cls(*[load_coeff_shc(p, **options) for p in paths])))
        ctx.close(field_of(load_model(*paths, **options)), expected, rtol=1e-13, atol=1e-8, what=f"field with the options {options}")
    ctx.state(*combo, number)


def shc_bad_cases(tier):
    for count in (1, 2, 3):
        for delta in (-1, 1, 2):
            yield ["times", count, delta]
            yield ["header", count, delta]
            yield ["rows", count, delta]
            for row in range(4):
                yield ["row", count, delta, row]
    for text in ("", "# only\n", "1 1 1 1 1\n", "1 1\n2000.0\n1 0 5.0\n", "x y z 1 1\n2000.0\n1 0 5.0\n", "1 1 1 1 1\nabc\n1 0 5.0\n",
                 "1 1 1 1 1\n2000.0\n1 0 five\n", "1 1 1 1 1\n2000.0\n1 0.5 3.0\n", "1 1 1 1 1 2000.0\n2000.0\n1 0 5.0\n",
                 "1 1 1 1 1\n2000.0\n1\n", "1 1 0 1 1\n\n1 0\n"):
        yield ["text", text]


@group("C14", "contradicting SHC files", shc_bad_cases, chunk=4)
def shc_bad(ctx, case):
    kind = case[0]
    if kind == "text":
        text = case[1]
    else:
        count, delta = case[1:3]
        if count + delta < 1:
            return
        nm = PATTERNS["dipole"] + [(2, 0)]
        years = [2000.0 + k for k in range(5)]
        series = numbers(len(nm), 5, 830)
        rows = [list(r[:count]) for r in series]
        header = count
        if kind == "rows":
            rows = [list(r[:count + delta]) for r in series]
        elif kind == "row":
            rows[case[3]] = list(series[case[3]][:count + delta])
        elif kind == "header":
            header = count + delta
        times = years[:count + delta] if kind == "times" else years[:count]
        text = shc_text(nm, rows, times, ntime=header)
    path = write(text, ".shc")
    for load in (load_coeff_shc, load_model_shc, load_model_shc_combined, lambda p: load_coeff_shc(p, interpolate_in_decimal_years=True)):
        ctx.raises(lambda: load(path), f"{case}")
        ctx.count(1)


# --- IGRF --------------------------------------------------------------------------------

def igrf_text(nm, series, rate, years, comment):
    out = [comment + "         " + "   ".join(["DGRF"] * len(years)) + "  SV"]
    out.append("g/h n m " + " ".join("%.1f" % y for y in years) + " %.0f-%02.0f" % (years[-1], (years[-1] + 5) % 100))
    for (n, m), row, sv in zip(nm, series, rate):
        out.append(("h" if m < 0 else "g") + " %2d %2d " % (n, abs(m)) + " ".join("%.2f" % v for v in row) + " %.2f" % sv)
    return "\n".join(out) + "\n"


@group("C14", "IGRF files", lambda tier: [[p, n, c] for p in PATTERNS for n in (1, 2, 3, 5) for c in range(4)], chunk=4)
def igrf(ctx, case):
    pattern, count, comment = case
    nm = PATTERNS[pattern]
    years = [1995.0 + 5 * k for k in range(count)]
    series = numbers(len(nm), count, 840)
    rate = np.round(ref.generic(len(nm), salt=841) * 20, 2)
    path = write(igrf_text(nm, series, rate, years, COMMENTS[comment]))
    full = np.concatenate([series, (series[:, -1] + 5 * rate)[:, None]], axis=1)
    coefs = load_coeff_igrf(path)
    check(ctx, coefs, nm, full, years + [years[-1] + 5], 2, "year", (as_mjd(years[0]), as_mjd(years[-1] + 5)), what="IGRF")
    check_model(ctx, load_model_igrf(path), coefs, what="IGRF")


@group("C14", "contradicting IGRF files", lambda tier: [[r, d] for r in range(-1, 3) for d in (-1, 1)], chunk=2)
def igrf_bad(ctx, case):
    row, delta = case
    nm = PATTERNS["dipole"]
    series = numbers(3, 4, 845)
    rows = [list(r[:3]) for r in series]
    for k in range(3) if row < 0 else [row]:
        rows[k] = list(series[k][:3 + delta])
    path = write(igrf_text(nm, rows, [1.0, 2.0, 3.0], [1995.0, 2000.0, 2005.0], ""))
    ctx.raises(lambda: load_coeff_igrf(path), f"{case}")
    ctx.raises(lambda: load_model_igrf(path), f"{case}")


# --- WMM ---------------------------------------------------------------------------------

def wmm_rows(degree):
    return [(n, m) for n in range(1, degree + 1) for m in range(n + 1)]


def wmm_cases(tier):
    for degree in (1, 2, 3, 5):
        for epoch in (2015.0, 2020.5, 1999.9):
            for zeros in ("none", "g", "h", "rates", "values", "some"):
                for tail in (0, 1, 2):
                    yield [degree, epoch, zeros, tail]


@group("C14", "WMM files", wmm_cases, chunk=8)
def wmm(ctx, case):
    degree, epoch, zeros, tail = case
    rows = wmm_rows(degree)
    v = np.round(ref.generic(len(rows), 4, salt=850) * 900, 1)
    v[[k for k, (n, m) in enumerate(rows) if m == 0], 1::2] = 0
    top = [k for k, (n, m) in enumerate(rows) if n == degree and m]
    rest = [k for k in range(len(rows)) if k not in top]
    if zeros == "g":
        v[rest, 0] = v[rest, 2] = 0
    elif zeros == "h":
        v[rest, 1] = v[rest, 3] = 0
    elif zeros == "rates":
        v[:, 2:] = 0
    elif zeros == "values":
        v[:, :2] = 0
    elif zeros == "some":
        v[1::3] = [0.0, 0.0, 0.0, -0.0]
        v[top[-1]] = [1.5, 2.5, 0.0, -3.0]
    lines = ["    %.1f            WMM-TEST      09/18/2018" % epoch]
    lines += [" %2d %2d  %9.1f %9.1f %9.1f %9.1f" % ((n, m) + tuple(r)) for (n, m), r in zip(rows, v)]
    lines += ["9" * 48] * tail
    path = write("\n".join(lines) + "\n", ".COF")
    coefs = load_coeff_wmm(path)
    nm, series = [], []
    for (n, m), r in zip(rows, v):
        nm.append((n, m))
        series.append((r[0], r[0] + 5 * r[2]))
        if m:
            nm.append((n, -m))
            series.append((r[1], r[1] + 5 * r[3]))
    check(ctx, coefs, nm, series, [epoch, epoch + 5], 2, "year", (as_mjd(epoch), as_mjd(epoch + 5)), what="WMM", degrees=False)
    ctx.require(coefs.degree == degree, f"degree {coefs.degree}")
    check_model(ctx, load_model_wmm(path), coefs, what="WMM")


# --- EMM -----------------------------------------------------------------------------------

def emm_text(rows, values, epoch, header=0):
    head = ["EMM-TEST\n\nDegrees 1-16:   A-1\nEpoch: %.1f\nDegree: 3\n\n  n  m  g  h\n" % epoch,
            "Epoch: %.1f\n" % epoch, "title of three words\n\n   Epoch:   %.1f\n\n" % epoch][header]
    return head + "-" * 32 + "\n" + "".join(" %3d %3d %12.4f %12.4f\n" % ((n, m) + tuple(v)) for (n, m), v in zip(rows, values))


def emm_files(rows_static, rows_secvar, zeros, header, epochs):
    g = np.round(ref.generic(len(rows_static), 2, salt=860) * 900, 4)
    if zeros:
        g[-2:] = 0.0
    sv = np.round(ref.generic(len(rows_secvar), 2, salt=861) * 20, 4)
    return g, sv, write(emm_text(rows_static, g, epochs[0], header), "-static.cof"), write(emm_text(rows_secvar, sv, epochs[1], header), "-secvar.cof")


@group("C14", "EMM files", lambda tier: [[a, b, z, h, e] for a in (1, 2, 3, 4) for b in range(1, a + 1) for z in (0, 1) for h in range(3) for e in (2010.0, 2000.5)], chunk=4)
def emm(ctx, case):
    total, varying, zeros, header, epoch = case
    rows, var = wmm_rows(total), wmm_rows(varying)
    zeros = zeros and total > varying
    g, sv, static, secvar = emm_files(rows, var, zeros, header, (epoch, epoch))
    coefs = load_coeff_emm(static, secvar)
    table_at = lambda year: expand(rows, g) + expand(var, sv, total) * (year - epoch)
    for frac in (0.0, 0.5, 2.25, 5.0):
        time = as_mjd(epoch + frac)
        got, degree = coefs(time)
        ctx.count(1)
        ctx.close(catalog.padded(got, ref.nterms(total)), table_at(float(year_of_mjd(time))), rtol=0, atol=1e-8, what=f"coefficients after {frac} years")
    ctx.close(np.array(coefs.validity, float), [as_mjd(epoch), as_mjd(epoch + 5)], rtol=0, atol=1e-9, what="validity")
    kept = [k for k, r in enumerate(rows) if np.any(g[k][:1 + (r[1] > 0)]) or k < len(var)]
    ctx.require(coefs.degree == max(rows[k][0] for k in kept) and coefs.min_degree == 1, f"degrees {coefs.min_degree}..{coefs.degree}")
    check_model(ctx, load_model_emm(static, secvar), coefs, what="EMM")


def expand(rows, values, degree=None):
    out = np.zeros((ref.nterms(degree or max(n for n, _ in rows)), 2))
    for (n, m), (a, b) in zip(rows, values):
        out[n * (n + 1) // 2 + m] = (a, b if m else 0.0)
    return out


EMM_BAD = ["epoch", "degree", "order", "longer", "shuffled", "shifted"]


@group("C14", "contradicting EMM files", lambda tier: [[k, a] for k in EMM_BAD for a in (2, 3)], chunk=2)
def emm_bad(ctx, case):
    kind, total = case
    rows, var = wmm_rows(total), wmm_rows(total - 1)
    epochs = (2010.0, 2010.0)
    if kind == "epoch":
        epochs = (2010.0, 2015.0)
    elif kind == "degree":
        var[-1] = (var[-1][0] + 1, var[-1][1])
    elif kind == "order":
        var[-1] = (var[-1][0], 0)
    elif kind == "longer":
        var = wmm_rows(total + 1)
    elif kind == "shuffled":
        var = var[::-1]
    elif kind == "shifted":
        var = [r for r in rows if r[0] > 1][:len(var)]
    _, _, static, secvar = emm_files(rows, var, 0, 0, epochs)
    ctx.raises(lambda: load_coeff_emm(static, secvar), f"{case}")
    ctx.raises(lambda: load_model_emm(static, secvar), f"{case}")


# --- MIO -----------------------------------------------------------------------------------

MIO_EXTENTS = [(0, 0, 0, 0), (0, 1, -1, 1), (-2, 2, -1, 2), (1, 2, 0, 0)]
MIO_PATTERNS = ["dipole", "unsorted", "sparse", "full 3"]


def mio_text(nm, qs, gh, extent, colat, lon, height, wolf, comment="", nm2=None, tail=""):
    nmax, mmax = max(n for n, _ in nm), max(abs(m) for _, m in nm)
    out = [comment + "%d %d %d %d %d %d %.2f %.2f %.1f %.6f" % ((nmax, mmax) + extent + (colat, lon, height, wolf)) + tail]
    for rows, values in ((nm, qs), (nm2 or nm, gh)):
        out += [" %d %d " % r + " ".join("%.4f" % x for x in np.ravel(v)) for r, v in zip(rows, values)]
    return "\n".join(out) + "\n"


def mio_values(nm, extent, salt):
    pmin, pmax, smin, smax = extent
    return np.round(ref.generic(len(nm), smax - smin + 1, pmax - pmin + 1, 2, salt=salt) * 20, 4)


def mio_cases(tier):
    for pattern, k, comment in itertools.product(MIO_PATTERNS, range(len(MIO_EXTENTS)), range(3)):
        for pole in ((9.92, 287.78), (9.7, -72.6), (80.5, 180.0), (10.0, 540.5), (0.0, 0.0)):
            for height, wolf in ((110.0, 0.01485), (90.5, 0.02)):
                if tier == "quick" and (k + comment + int(pole[0]) + int(height)) % 2:
                    continue
                yield [pattern, k, comment, list(pole), height, wolf]


@group("C14", "MIO files", mio_cases, chunk=4)
def mio(ctx, case):
    pattern, k, comment, pole, height, wolf = case
    nm, extent = PATTERNS[pattern], MIO_EXTENTS[k]
    qs, gh = mio_values(nm, extent, 870), mio_values(nm, extent, 871)
    path = write(mio_text(nm, qs, gh, extent, pole[0], pole[1], height, wolf, COMMENTS[comment], tail=" # x" if comment == 1 else ""))
    npole = (90 - pole[0], 180 - (180 - pole[1]) % 360)
    ratio = (1 + height / 6371.2)
    n = np.array([r[0] for r in nm], float)
    above = qs * (-n / (n + 1) * ratio ** (2 * n + 1))[:, None, None, None]
    secondary = loader_mio.load_model_swarm_mio_internal(path)
    primary = loader_mio.load_model_swarm_mio_external(path)
    below_only = loader_mio.load_model_swarm_mio_external(path, above_ionosphere=False)
    above_only = loader_mio.load_model_swarm_mio_external(path, above_ionosphere=True)
    limit = 6371.2 + height
    for model, values, internal, radius, name in (
            (secondary, gh, True, limit + 300, "secondary"), (primary, qs, False, limit - 0.5, "primary below"), (primary, above, True, limit + 0.5, "primary above"),
            (below_only, qs, False, limit + 10, "external below"), (above_only, above, True, limit - 10, "external above")):
        ctx.require((int(model.degree), int(model.min_degree)) == (max(r[0] for r in nm), min(r[0] for r in nm)), f"{name}: degrees")
        ctx.same(np.array(model.validity), [-INF, INF], f"{name}: validity")
        if model is not primary:
            ctx.close(np.array(model.north_pole), np.array(npole), rtol=0, atol=1e-12, what=f"{name}: north pole")
        for time, f107, sun in ((4.25, 70.0, (20.0, 30.0)), (8000.7, None, (-12.0, 200.0))):
            place = np.array([33.0, 20.0, radius])
            exact = mio_exact(time, place, np.array(nm), values, extent, npole, internal, SPHERICAL, SPHERICAL, f107, sun, wolf)
            options = {"lat_sol": sun[0], "lon_sol": sun[1]}
            if f107 is not None:
                options["f107"] = f107
            ctx.count(1)
            if not ctx.close(model.eval(time, place, **options), exact, rtol=1e-9, atol=1e-10 * (1 + np.abs(exact).max()), what=f"{name}: field at {time}"):
                return
    for load, values, internal in ((loader_mio.load_coeff_swarm_mio_internal, gh, True), (lambda p: loader_mio.load_coeff_swarm_mio_external(p, False), qs, False),
                                   (lambda p: loader_mio.load_coeff_swarm_mio_external(p, True), above, True), (loader_mio.load_coeff_swarm_mio_external, above, True)):
        coefs, params = load(path)
        ctx.require(bool(coefs.is_internal) == internal and tuple(coefs.ps_extent) == extent, "extent and source of the coefficients")
        got, degree = coefs(100.25, 7.5)
        exact = table(100.25, 7.5, np.array(nm), values, extent)
        ctx.close(catalog.padded(got, 28), catalog.padded(np.asarray(exact, float), 28), rtol=0, atol=1e-9, what="coefficients")
        ctx.require((params["lat_NGP"], params["height"], params["wolf_ratio"]) == (90 - pole[0], height, wolf), "parameters")


def mio_bad_cases(tier):
    for row in range(3):
        for col in (0, 1):
            yield ["indices", row, col]
        for delta in (-1, 1):
            for half in (0, 1):
                yield ["row", row, delta, half]
    for name in ("odd", "swapped", "extent", "empty", "header"):
        yield [name]


@group("C14", "contradicting MIO files", mio_bad_cases, chunk=2)
def mio_bad(ctx, case):
    nm, extent = PATTERNS["dipole"], (0, 1, -1, 1)
    qs, gh = list(mio_values(nm, extent, 875)), list(mio_values(nm, extent, 876))
    nm2 = list(nm)
    kind = case[0]
    if kind == "indices":
        row = list(nm2[case[1]])
        row[case[2]] += 1
        nm2[case[1]] = tuple(row)
    elif kind == "row":
        half = (qs, gh)[case[3]]
        flat = list(np.ravel(half[case[1]]))
        half[case[1]] = flat[:-1] if case[2] < 0 else flat + [1.0]
    elif kind == "swapped":
        nm2 = nm2[::-1]
    elif kind == "odd":
        gh, nm2 = gh[:-1], nm2[:-1]
    text = mio_text(nm, qs, gh, (0, 2, -1, 1) if kind == "extent" else extent, 9.9, 287.7, 110.0, 0.01485, nm2=nm2)
    if kind == "empty":
        text = "# nothing\n"
    elif kind == "header":
        text = text.replace("0.014850", "", 1)
    path = write(text)
    for load in (loader_mio.load_model_swarm_mio_internal, loader_mio.load_model_swarm_mio_external, loader_mio.load_coeff_swarm_mio_internal, loader_mio.load_coeff_swarm_mio_external):
        ctx.raises(lambda: load(path), f"{case}")


# --- MMA (CDF) -----------------------------------------------------------------------------

FAMILIES = {
    # name: (loaders, variable names, source)
    "2C internal": ("2c_internal", [("gh_1", "gh"), ("gh_2", "gh")], True),
    "2C external": ("2c_external", [("qs_1", "qs"), ("qs_2", "qs")], False),
    "2F geo internal": ("2f_geo_internal", [("gh_geo", "gh")], True),
    "2F geo external": ("2f_geo_external", [("qs_geo", "qs")], False),
    "2F sm internal": ("2f_sm_internal", [("gh_sm", "gh")], True),
    "2F sm external": ("2f_sm_external", [("qs_sm", "qs")], False),
}


def epochs_of(mjd):
    """ CDF epoch: milliseconds since year 0 """
    return (np.asarray(mjd, float) + 730485) * 86400000.0


def write_cdf(path, family, sets, layout=2):
    """ sets: list of (nm, series[K, N], mjd[N]) """
    from spacepy import pycdf
    if os.path.exists(path):
        os.remove(path)
    single = family.startswith("2F")
    cdf = pycdf.CDF(path, "")
    try:
        variables = FAMILIES[family][1]
        frames = [variables[0][0]]
        if single:      # both frames are in one product, the other one with other values
            other = variables[0][0].replace("geo", "sm") if "geo" in variables[0][0] else variables[0][0].replace("sm", "geo")
            frames.append(other)
        for (name, base), (nm, series, mjd) in zip(variables, sets):
            key = base if single else name
            nm = np.array(nm)
            cdf.new("t_" + key, epochs_of(mjd)[None], type=pycdf.const.CDF_EPOCH)
            if layout == 3:
                cdf.new("nm_" + key, nm[None], type=pycdf.const.CDF_INT4)
            else:
                cdf.new("nm_" + key, nm, type=pycdf.const.CDF_INT4, recVary=False)
            cdf.new(name, series.T[None], type=pycdf.const.CDF_DOUBLE)
            if single:
                cdf.new(frames[1], -3 * series.T[None] + 1, type=pycdf.const.CDF_DOUBLE)
    finally:
        cdf.close()
    return path


MMA_NM = [[(1, 0), (1, 1), (1, -1)], [(1, 0), (2, 1), (3, -2)], [(2, 0), (2, -1), (2, 2), (3, 3)]]


def mma_data(family, part, times):
    sets = []
    for k, _ in enumerate(FAMILIES[family][1]):
        nm = MMA_NM[k]
        step = times if k == 0 else [times[0], times[-1]] if len(times) > 1 else times
        sets.append((nm, numbers(len(nm), len(step), 880 + 10 * k + part), step))
    return sets


def mma_cases(tier):
    spans = {"one": [[0.0, 0.0625, 0.125]], "two": [[0.0, 1.0], [1.25, 2.0, 3.0]], "touching": [[0.0, 1.0], [1.0, 2.0]],
             "three": [[-400.5, -400.0], [0.0, 0.5, 0.75], [8000.0, 8001.0]], "record": [[0.0, 1.0], [2.0]], "touching record": [[0.0, 1.0], [1.0]],
             "records": [[0.0], [1.0], [1.5]], "first record": [[0.0], [0.0, 1.0]]}
    for family in FAMILIES:
        for name, span in spans.items():
            for layout in (2, 3):
                yield [family, name, span, layout]


@group("C14", "MMA files", mma_cases, chunk=2)
def mma(ctx, case):
    family, _, spans, layout = case
    suffix, variables, internal = FAMILIES[family]
    paths, parts = [], []
    for k, times in enumerate(spans):
        parts.append(mma_data(family, k, times))
        paths.append(write_cdf(scratch(f"-{k}.cdf"), family, parts[-1], layout))
    coefs = getattr(loader_mma, "load_coeff_swarm_mma_" + suffix)(*paths)
    model = getattr(loader_mma, "load_model_swarm_mma_" + suffix)(*paths)
    members = list(coefs) if len(variables) > 1 else [coefs]
    ctx.require(len(members) == len(variables), "number of sets")
    total = 0
    first, last = -INF, INF
    queries = sorted({t for s in spans for t in s} | {(a + b) / 2 for s in spans for a, b in zip(s, s[1:])} | {(a[-1] + b[0]) / 2 for a, b in zip(spans, spans[1:])})
    tables = {t: np.zeros((10, 2)) for t in queries}
    for k, member in enumerate(members):
        nm = MMA_NM[k]
        times = [t for p in parts for t in p[k][2]]
        series = np.concatenate([p[k][1] for p in parts], axis=1)
        ctx.close(np.array(member.validity, float), [times[0], times[-1]], rtol=0, atol=1e-9, what="validity")
        ctx.require(bool(member.is_internal) == internal, "source")
        ctx.require((int(member.degree), int(member.min_degree)) == (max(n for n, _ in nm), min(n for n, _ in nm)), "degrees")
        first, last = max(first, times[0]), min(last, times[-1])
        for t in queries:
            values, _ = reference(LD(t), [LD(v) for v in times], series, "C1", True)
            exact = np.zeros((10, 2))
            for (n, m), v in zip(nm, np.asarray(values, float)):
                exact[n * (n + 1) // 2 + abs(m), int(m < 0)] = v
            tables[t] += exact
            ctx.count(1)
            if not ctx.close(catalog.padded(member(t)[0], 10), exact, rtol=0, atol=1e-5, what=f"coefficients of the set {k} at {t}"):
                return
    ctx.close(np.array(model.validity, float), [first, last], rtol=0, atol=1e-9, what="validity of the model")
    pole = (90 - 9.92, 287.78 - 360.0)
    for t in queries:
        if suffix.startswith("2c"):
            from .c11 import dipole_field
            exact = -dipole_field(PLACE[None], tables[t], *pole, SPHERICAL, SPHERICAL, internal)[1][0]
        else:
            exact = -ref.field(PLACE, tables[t], SPHERICAL, SPHERICAL, internal=internal)[1].astype(float)
        got = model.eval(t, PLACE)
        ctx.close(got, exact, rtol=0, atol=1e-4, what=f"field at {t}")
    if suffix.startswith("2c"):
        from .c11 import dipole_field
        other = getattr(loader_mma, "load_model_swarm_mma_" + suffix)(*paths, lat_ngp=70.0, lon_ngp=15.0)
        t = queries[0]
        exact = -dipole_field(PLACE[None], tables[t], 70.0, 15.0, SPHERICAL, SPHERICAL, internal)[1][0]
        ctx.close(other.eval(t, PLACE), exact, rtol=0, atol=1e-4, what="field with another pole")


MMA_BAD = ["unordered", "overlap", "degree", "indices", "more", "permuted", "one set of two", "time type"]


@group("C14", "contradicting MMA files", lambda tier: [[f, b] for f in FAMILIES for b in MMA_BAD], chunk=4)
def mma_bad(ctx, case):
    family, bad = case
    suffix, variables, _ = FAMILIES[family]
    one, two = mma_data(family, 0, [0.0, 1.0]), mma_data(family, 1, [1.5, 2.0])
    target = len(variables) - 1
    nm, series, times = two[target]
    if bad == "unordered":
        two = mma_data(family, 1, [-3.0, -2.0])
    elif bad == "overlap":
        two = mma_data(family, 1, [0.5, 2.0])
    elif bad == "degree":
        two[target] = ([(n + 1, m) for n, m in nm], series, times)
    elif bad == "indices":
        two[target] = ([nm[0], (nm[1][0], 0)] + nm[2:], series, times)
    elif bad == "more":
        two[target] = (nm + [(nm[-1][0], 0)], np.concatenate([series, series[:1]]), times)
    elif bad == "permuted":
        two[target] = (nm[::-1], series, times)
    elif bad == "one set of two":
        if target == 0:
            return
        two[target] = (nm, series, [0.25, 0.5])
    paths = [write_cdf(scratch(f"-{k}.cdf"), family, s) for k, s in enumerate((one, two))]
    if bad == "time type":
        from spacepy import pycdf
        paths = paths[:1]
        key = "t_" + (variables[0][1] if suffix.startswith("2f") else variables[0][0])
        cdf = pycdf.CDF(paths[0])
        try:
            cdf.readonly(False)
            del cdf[key]
            cdf.new(key, np.array([[0.0, 1.0]]), type=pycdf.const.CDF_DOUBLE)
        finally:
            cdf.close()
    for load in ("load_coeff_swarm_mma_", "load_model_swarm_mma_"):
        ctx.raises(lambda: getattr(loader_mma, load + suffix)(*paths), f"{case}")


def mma_sequence_cases(tier):
    for family in FAMILIES:
        for size in (1, 2, 3, 4):
            for order in itertools.product(range(size), repeat=size):
                if len(set(order)) < size and (tier == "quick" and size == 4 or len(set(order)) < size - 1):
                    continue
                yield [family, "order", list(order)]
        for size in (2, 3, 4):
            for place in range(size):
                for bad in ("degree", "indices", "permuted"):
                    yield [family, bad, size, place]


@group("C14", "sequences of MMA files", mma_sequence_cases, chunk=4)
def mma_sequence(ctx, case):
    """ every order of the files and every place of a contradicting file """
    family, kind = case[:2]
    suffix, variables, _ = FAMILIES[family]
    spans = [[0.0, 1.0], [1.5, 2.0], [2.0, 2.5], [4.0]]
    if kind == "order":
        order = case[2]
        accepted = all(spans[a][-1] <= spans[b][0] for a, b in zip(order, order[1:]))
        parts = [mma_data(family, k, spans[k]) for k in order]
    else:
        size, place = case[2:]
        accepted = False
        parts = [mma_data(family, k, spans[k]) for k in range(size)]
        target = len(variables) - 1
        nm, series, times = parts[place][target]
        if kind == "degree":
            parts[place][target] = ([(n + 1, m) for n, m in nm], series, times)
        elif kind == "indices":
            parts[place][target] = ([nm[0], (nm[1][0], 0)] + nm[2:], series, times)
        else:
            parts[place][target] = (nm[::-1], series, times)
    paths = [write_cdf(scratch(f"-{k}.cdf"), family, s) for k, s in enumerate(parts)]
    if not accepted:
        ctx.raises(lambda: getattr(loader_mma, "load_coeff_swarm_mma_" + suffix)(*paths), f"{case}")
        ctx.raises(lambda: getattr(loader_mma, "load_model_swarm_mma_" + suffix)(*paths), f"{case}")
        return
    coefs = getattr(loader_mma, "load_coeff_swarm_mma_" + suffix)(*paths)
    times = sorted({t for k in case[2] for t in spans[k]})
    ctx.close(np.array(coefs.validity, float), [times[0], times[-1]], rtol=0, atol=1e-9, what="validity")
    ctx.count(1)


# --- the bundled models -----------------------------------------------------------------------

SHC_FILES = ["IGRF12", "IGRF13", "IGRF14", "SIFM", "LCS1", "MF7", "CHAOS7_CORE_X18", "CHAOS7_CORE_X18_PREDICTION", "CHAOS7_STATIC", "CHAOS8_CORE_V1",
             "CHAOS8_CORE_V1_PREDICTION", "CHAOS8_STATIC"]


@group("C14", "bundled files", lambda tier: [[k] for k in SHC_FILES + ["WMM_2015", "IGRF11"]], chunk=1)
def bundled_files(ctx, case):
    """ files of the package, read again independently """
    name, = case
    with open(getattr(bundled, name), encoding="ascii") as fin:
        rows = [line.split() for line in fin if line.strip() and not line.lstrip().startswith("#")]
    what = name
    if name == "WMM_2015":
        epoch = float(rows[0][0])
        nm, series = [], []
        for r in rows[1:]:
            if len(r) == 1:
                break
            n, m = int(r[0]), int(r[1])
            g, h, dg, dh = map(float, r[2:6])
            nm += [(n, m)] + ([(n, -m)] if m else [])
            series += [(g, g + 5 * dg)] + ([(h, h + 5 * dh)] if m else [])
        check(ctx, load_coeff_wmm(bundled.WMM_2015), nm, series, [epoch, epoch + 5], 2, "year", (as_mjd(epoch), as_mjd(epoch + 5)), what=what)
        return
    if name == "IGRF11":
        years = [float(v) for v in rows[1][3:-1]]
        nm = [(int(r[1]), int(r[2]) * (-1 if r[0] == "h" else 1)) for r in rows[2:]]
        series = np.array([[float(v) for v in r[3:]] for r in rows[2:]])
        series[:, -1] = series[:, -2] + 5 * series[:, -1]
        check(ctx, load_coeff_igrf(bundled.IGRF11), nm, series, years + [years[-1] + 5], 2, "year", (as_mjd(years[0]), as_mjd(years[-1] + 5)), what=what)
        return
    head, years = rows[0], [float(v) for v in rows[1]]
    nm = [(int(r[0]), int(r[1])) for r in rows[2:]]
    series = np.array([[float(v) for v in r[2:]] for r in rows[2:]])
    if len(head) > 5:
        span = (as_mjd(float(head[5])), as_mjd(float(head[6])))
    else:
        span = (-INF, INF) if len(years) == 1 else (as_mjd(years[0]), as_mjd(years[-1]))
    path = getattr(bundled, name)
    order = min(int(head[3]), 2)
    coefs = load_coeff_shc(path)
    check(ctx, coefs, nm, series, years, order, "mjd", span, what=what, tol=1e-8)
    check(ctx, load_coeff_shc(path, interpolate_in_decimal_years=True), nm, series, years, order, "year", span, what=what + " in decimal years")
    if coefs.degree < 80:
        check_model(ctx, load_model_shc(path), coefs, what=what)


# --- terms repeated or not existing ------------------------------------------------------------

def wrong_file_cases(tier):
    for kind in ("SHC", "IGRF", "WMM", "MIO", "EMM static", "EMM both"):
        for row in range(3):
            yield [kind, "repeated", row, 0]
            yield [kind, "repeated", row, 1]
            yield [kind, "changed", row, 1]
            for order in (1, 2, 40):
                yield [kind, "order", row, order]
    for family in FAMILIES:
        for row in range(2):
            yield ["MMA " + family, "repeated", row, 0]
            yield ["MMA " + family, "order", row, 2]


@group("C14", "files of wrong terms", wrong_file_cases, chunk=8)
def wrong_files(ctx, case):
    kind, what, row, shift = case
    base = wmm_rows(2)[:4] if kind[:3] in ("WMM", "EMM") else MMA_NM[0] if kind[:3] == "MMA" else [(1, 0), (1, 1), (1, -1), (2, 0)]
    rows = list(base)
    if what == "order":                                  # an order above the degree
        n, m = rows[row]
        rows[row] = (n, n + shift if m >= 0 else -n - shift)
    elif what == "changed":                              # a term replaced by another present one
        rows[row] = rows[row + 1]
    else:                                                # a term repeated next to it or at the end
        rows.insert(len(rows) if shift else row, rows[row])
    series = numbers(len(rows), 2, 890)
    if kind == "SHC":
        paths, loads = [write(shc_text(rows, series, [2000.0, 2005.0]), ".shc")], (load_coeff_shc, load_model_shc, load_model_shc_combined)
    elif kind == "IGRF":
        paths, loads = [write(igrf_text(rows, series, series[:, 0], [1995.0, 2000.0], ""))], (load_coeff_igrf, load_model_igrf)
    elif kind == "WMM":
        v = np.round(ref.generic(len(rows), 4, salt=891) * 900, 1)
        lines = ["    2015.0            WMM-TEST      09/18/2018"] + [" %2d %2d  %9.1f %9.1f %9.1f %9.1f" % (tuple(r) + tuple(x)) for r, x in zip(rows, v)]
        paths, loads = [write("\n".join(lines) + "\n", ".COF")], (load_coeff_wmm, load_model_wmm)
    elif kind == "MIO":
        extent = (0, 1, -1, 1)
        text = mio_text(rows, mio_values(rows, extent, 892), mio_values(rows, extent, 893), extent, 9.9, 287.7, 110.0, 0.01485)
        paths, loads = [write(text)], (loader_mio.load_model_swarm_mio_internal, loader_mio.load_model_swarm_mio_external,
                                       loader_mio.load_coeff_swarm_mio_internal, loader_mio.load_coeff_swarm_mio_external)
    elif kind[:3] == "EMM":
        _, _, *paths = emm_files(rows, rows if kind == "EMM both" else rows[:1], 0, 0, (2010.0, 2010.0))
        loads = (load_coeff_emm, load_model_emm)
    else:
        family = kind[4:]
        sets = mma_data(family, 0, [0.0, 1.0])
        sets[0] = (rows, numbers(len(rows), 2, 894), [0.0, 1.0])
        paths = [write_cdf(scratch("-0.cdf"), family, sets)]
        loads = [getattr(loader_mma, f"load_{x}_swarm_mma_{FAMILIES[family][0]}") for x in ("coeff", "model")]
    for load in loads:
        ctx.raises(lambda: load(*paths), f"{case}")
        ctx.count(1)


# --- sizes of the files -----------------------------------------------------------------------

def file_size_cases(tier):
    degrees = (4, 6, 9, 10, 11, 13, 16, 17, 20, 33) if tier == "quick" else (*range(4, 36), 45, 60, 100)
    for degree in degrees:
        for count in (1, 2, 7, 12):
            yield ["SHC", degree, count]
        yield ["WMM", degree, 2]
        yield ["IGRF", degree, 26]
        yield ["EMM", degree, 2]
    for count in (*range(6, 30), 40, 64, 65, 100, 128, 129, 256, 257, 500) if tier == "quick" else (*range(6, 140), 255, 256, 257, 500, 512, 513, 1000, 1024, 1025, 3000):
        yield ["SHC", 2, count]
        if count < 30:
            yield ["IGRF", 3, count]
    for degree in (4, 5, 7, 8):
        for extent in range(len(MIO_EXTENTS)):
            yield ["MIO", degree, extent]


@group("C14", "sizes of the files", file_size_cases, chunk=4)
def file_sizes(ctx, case):
    """ no number of rows, columns or digits is special """
    family, degree, count = case
    nm = [tuple(v) for v in catalog.nm_full(degree).tolist()]
    rows = wmm_rows(degree)
    if family == "SHC":
        years = [1900.0 + 0.25 * k + 0.125 * (k % 2) for k in range(count)]
        series = numbers(len(nm), count, 880)
        path = write(shc_text(nm, series, years, 2), ".shc")
        validity = (-INF, INF) if count == 1 else (as_mjd(years[0]), as_mjd(years[-1]))
        check(ctx, load_coeff_shc(path), nm, series, years, 2 if count > 1 else 1, "mjd", validity, what=f"SHC of degree {degree}, {count} snapshots")
        values = load_coeff_shc(path)(0.125)[0]
        check(ctx, load_coeff_shc(path, spline_order=1), nm, series, years, 1, "mjd", validity, what=f"SHC steps of degree {degree}, {count} snapshots")
        ctx.require(values.shape == (ref.nterms(degree), 2), f"shape {values.shape}")
    elif family == "IGRF":
        years = [1900.0 + 5 * k for k in range(count)]
        series = numbers(len(nm), count, 881)
        rate = np.round(ref.generic(len(nm), salt=882) * 20, 2)
        path = write(igrf_text(nm, series, rate, years, COMMENTS[degree % 3]))
        full = np.concatenate([series, (series[:, -1] + 5 * rate)[:, None]], axis=1)
        check(ctx, load_coeff_igrf(path), nm, full, years + [years[-1] + 5], 2, "year", (as_mjd(years[0]), as_mjd(years[-1] + 5)), what=f"IGRF of degree {degree}, {count} snapshots")
    elif family == "WMM":
        v = np.round(ref.generic(len(rows), 4, salt=883) * 900, 1)
        v[[k for k, (n, m) in enumerate(rows) if m == 0], 1::2] = 0
        lines = ["    2020.0            WMM-TEST      09/18/2018"]
        lines += [" %2d %2d  %9.1f %9.1f %9.1f %9.1f" % ((n, m) + tuple(r)) for (n, m), r in zip(rows, v)]
        path = write("\n".join(lines + ["9" * 48]) + "\n", ".COF")
        terms = [(n, s * m) for n, m in rows for s in ((1, -1) if m else (1,))]
        at = {r: k for k, r in enumerate(rows)}
        pick = lambda n, m, j: v[at[(n, abs(m))], j + (m < 0)]
        series = [(pick(n, m, 0), pick(n, m, 0) + 5 * pick(n, m, 2)) for n, m in terms]
        check(ctx, load_coeff_wmm(path), terms, series, [2020.0, 2025.0], 2, "year", (as_mjd(2020.0), as_mjd(2025.0)), what=f"WMM of degree {degree}")
    elif family == "EMM":
        var = wmm_rows(max(1, degree - 3))
        g, sv, static, secvar = emm_files(rows, var, 0, degree % 3, (2010.0, 2010.0))
        coefs = load_coeff_emm(static, secvar)
        for frac in (0.0, 2.25):
            time = as_mjd(2010.0 + frac)
            table_ = expand(rows, g) + expand(var, sv, degree) * (float(year_of_mjd(time)) - 2010.0)
            ctx.count(1)
            ctx.close(coefs(time)[0], table_, rtol=0, atol=1e-8, what=f"EMM of degree {degree} after {frac} years")
    else:
        extent = MIO_EXTENTS[count]
        qs, gh = mio_values(nm, extent, 884), mio_values(nm, extent, 885)
        path = write(mio_text(nm, qs, gh, extent, 9.9, -72.0, 110.0, 0.015))
        for load, values in ((loader_mio.load_coeff_swarm_mio_internal, gh), (lambda p: loader_mio.load_coeff_swarm_mio_external(p, False), qs)):
            got = load(path)[0](100.25, 7.5)[0]
            ctx.count(1)
            ctx.close(got, np.asarray(table(100.25, 7.5, np.array(nm), values, extent), float), rtol=0, atol=1e-8, what=f"MIO of degree {degree}")
    ctx.state(*case)


# --- digits of the numbers -----------------------------------------------------------------------

FORMATS = {
    "shortest": lambda v: repr(float(v)), "17 digits": lambda v: "%.16e" % v, "capital": lambda v: "%.17E" % v, "plain": lambda v: "%.20f" % v, "sign": lambda v: "%+.17g" % v,
    "no leading zero": lambda v: repr(float(v)).replace("0.", ".", 1) if abs(v) < 1 and repr(float(v)).lstrip("-").startswith("0.") else repr(float(v)),
    "integers": lambda v: "%d" % round(v),
}
SIZES = {"usual": 30000.0, "small": 1e-7, "huge": 1e9}


@group("C14", "digits of the numbers", lambda tier: [[f, s, k] for f in FORMATS for s in SIZES for k in range(5)], chunk=4)
def digits(ctx, case):
    """ all digits of the coefficients, times and limits of the files are used """
    name, size, salt = case
    write_ = FORMATS[name]
    value = lambda v: float(write_(float(v)))
    nm = PATTERNS["unsorted"]
    years = [2000.0 + value(v) for v in (0.123456789 + salt, 1.987654321 + salt, 3.5 + 2 * salt)] if name != "integers" else [1990.0 + salt, 1999.0, 2005.0]
    years = [value(v) for v in years]
    limits = [value(years[0] + 0.00012345678), value(years[-1] + 0.98765432101)]
    if limits[0] >= limits[1]:
        return
    series = np.array([[value(v) for v in row] for row in ref.generic(len(nm), 3, salt=890 + salt) * SIZES[size]])
    text = f"1 3 3 2 1 {write_(limits[0])} {write_(limits[1])}\n " + " ".join(write_(v) for v in years) + "\n"
    text += "".join(f"{n} {m} " + " ".join(write_(v) for v in row) + "\n" for (n, m), row in zip(nm, series))
    coefs = load_coeff_shc(write(text, ".shc"), interpolate_in_decimal_years=True)
    ctx.count(2)
    ctx.close(np.array(coefs.validity), [as_mjd(v) for v in limits], rtol=1e-15, atol=1e-9, what="validity limits")
    data = parse_shc(text)
    ctx.same(data["t"], np.array(years), "times of the file")
    ctx.same(data["gh"], series, "coefficients of the file")
    ctx.same(np.array([data["validity_start"], data["validity_end"]]), np.array(limits), "limits of the file")
    # the same numbers in an ionospheric file
    extent = MIO_EXTENTS[1]
    qs = np.array([value(v) for v in (ref.generic(len(nm) * 12, salt=895 + salt) * SIZES[size])]).reshape(len(nm), 3, 2, 2)
    head = [value(v) for v in (9.123456789, -72.987654321, 110.123456789, 0.0148512345678 if name != "integers" else 1.0)]
    rows = ["3 3 0 1 -1 1 " + " ".join(write_(v) for v in head)]
    for _ in range(2):
        rows += [f"{n} {m} " + " ".join(write_(v) for v in np.ravel(row)) for (n, m), row in zip(nm, qs)]
    path = write("\n".join(rows) + "\n")
    coefs, params = loader_mio.load_coeff_swarm_mio_internal(path)
    ctx.same(np.array([90 - params["lat_NGP"], params["height"], params["wolf_ratio"]]), np.array([90 - (90 - head[0]), head[2], head[3]]), "parameters of the ionospheric file")
    got, degree = coefs(100.25, 7.5)
    exact = np.asarray(table(100.25, 7.5, np.array(nm), qs, extent), float)
    ctx.close(catalog.padded(got, 28), catalog.padded(exact, 28), rtol=0, atol=1e-12 * SIZES[size] + 0.0, what="coefficients of the ionospheric file")
    # files of a value and a rate at one epoch
    epoch = years[1]
    rows = wmm_rows(2)
    values = np.array([[value(v) for v in row] for row in ref.generic(len(rows), 4, salt=897 + salt) * SIZES[size]])
    values[[k for k, (_, m) in enumerate(rows) if not m], 1::2] = 0.0
    lines = [f"  {write_(epoch)}   WMM-TEST   09/18/2018"] + [f"{n} {m} " + " ".join(write_(v) for v in row) for (n, m), row in zip(rows, values)]
    for kind in ("WMM", "EMM") if values.any() else ():
        if kind == "WMM":
            coefs = load_coeff_wmm(write("\n".join(lines + ["9" * 48]) + "\n", ".COF"))
        else:
            head = f"TEST\nEpoch: {write_(epoch)}\n-----\n"
            coefs = load_coeff_emm(*(write(head + "".join(f"{n} {m} {write_(r[j])} {write_(r[j + 1])}\n" for (n, m), r in zip(rows, values)), f"-{j}.cof") for j in (0, 2)))
        ctx.close(np.array(coefs.validity), [as_mjd(epoch), as_mjd(epoch + 5)], rtol=1e-15, atol=1e-9, what=f"validity of {kind}")
        for time, frac in ((as_mjd(epoch), 0.0), (as_mjd(epoch + 5), 5.0)):
            full = np.zeros((6, 2))
            for (n, m), (g, h, dg, dh) in zip(rows, values):
                full[n * (n + 1) // 2 + m] = g + frac * dg, h + frac * dh
            ctx.close(catalog.padded(coefs(time)[0], 6), full, rtol=1e-12, atol=1e-10 * SIZES[size], what=f"{kind} at {time}")
        ctx.count(1)
    # a main field file with five year steps
    rate = np.array([value(v) for v in ref.generic(len(nm), salt=899) * SIZES[size] * 1e-3])
    lines = ["g/h n m 2000.0 2005.0 2010.0 2010-15"] + [("h" if m < 0 else "g") + f" {n} {abs(m)} " + " ".join(write_(v) for v in (*row, sv)) for (n, m), row, sv in zip(nm, series, rate)]
    coefs = load_coeff_igrf(write("\n".join(["# c", "  DGRF DGRF IGRF SV"] + lines) + "\n"))
    for time, want in ((as_mjd(2000.0), series[:, 0]), (as_mjd(2005.0), series[:, 1]), (as_mjd(2015.0), series[:, 2] + 5 * rate)):
        full = np.zeros((10, 2))
        for (n, m), v in zip(nm, want):
            full[n * (n + 1) // 2 + abs(m), int(m < 0)] = v
        ctx.close(catalog.padded(coefs(time)[0], 10), full, rtol=1e-12, atol=1e-9 * SIZES[size] * 1e-3, what=f"main field file at {time}")


def parse_shc(text):
    import io
    from eoxmagmod.magnetic_model.parser_shc import parse_shc_file
    return parse_shc_file(io.StringIO(text))
