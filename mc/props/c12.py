""" C12 - time conversions follow the calendar and invert each other

The calendar is counted day by day: year lengths of the Julian calendar up to
1582 (which lost ten days), of the Gregorian calendar since.  Every day of the
covered years is checked, not a sample of them.
"""
import datetime
import numpy as np
import eoxmagmod as em
from eoxmagmod import time_util
from ..core import group
from ..ref import LD

FIRST, LAST = -4712, 101000         # whole table of year starts
REFORM = 1582


def year_length(year):
    if year == REFORM:
        return 355
    if year < REFORM:
        return 366 if year % 4 == 0 else 365
    return 366 if year % 4 == 0 and (year % 100 != 0 or year % 400 == 0) else 365


YEARS = np.arange(FIRST, LAST)
LENGTHS = np.array([year_length(y) for y in range(FIRST, LAST)], dtype=np.int64)
STARTS = np.concatenate([[0], np.cumsum(LENGTHS)])
STARTS -= STARTS[2000 - FIRST]


def start(year):
    return int(STARTS[year - FIRST])


def scale(years):
    """ days used for the fraction of a year: the reform year keeps the length
    of an ordinary year of the calendar it started with """
    out = LENGTHS[np.asarray(years) - FIRST].copy()
    out[np.asarray(years) == REFORM] = 365
    return out


def calendar(mjd):
    """ (year, days since its start, divisor) of the given MJD2000 values """
    mjd = np.asarray(mjd, dtype=LD)
    index = np.searchsorted(STARTS, np.floor(mjd).astype(np.int64), side="right") - 1
    years = YEARS[index]
    return years, mjd - STARTS[index], scale(years)


FRACTIONS = [0.0, 2.0**-30, 0.25, 0.5, 1 - 2.0**-20]


def blocks(first, last, size):
    return [[y, min(y + size, last)] for y in range(first, last, size)]


def day_cases(tier):
    yield from blocks(-4712, 10100 if tier == "quick" else 100900, 20)


def compare(ctx, mjd, what):
    years, elapsed, length = calendar(mjd)
    fraction = elapsed / length
    exact = years + fraction
    year, frac = em.mjd2000_to_decimal_year(mjd), em.mjd2000_to_year_fraction(mjd)
    ctx.count(2 * mjd.size)
    good = ctx.close(year, exact.astype(float), rtol=2.3e-16, atol=2e-16, what=f"decimal year {what}")
    good &= ctx.close(frac, fraction.astype(float), rtol=3e-16, atol=4e-16, what=f"year fraction {what}")
    ctx.require(bool(np.all((frac >= 0) & (frac <= 1))), f"year fraction outside of 0 to 1 {what}")
    again = em.decimal_year_to_mjd2000(year)
    ctx.count(mjd.size)
    # the decimal year resolves ulp(year) * length
    tol = (np.spacing(np.abs(year)) + 2e-16) * 366 * 1.01 + np.spacing(np.abs(mjd))
    bad = np.abs(again - mjd) > tol
    good &= ctx.require(not bad.any(), f"decimal year back to MJD2000 {what}: {mjd[bad][:1].tolist()} gives {again[bad][:1].tolist()}")
    return good, year


@group("C12", "every day", day_cases, chunk=1)
def days(ctx, case):
    """ every day of the block of years, several times of the day, in order """
    first, last = case
    whole = np.arange(start(first), start(last), dtype=float)
    mjd = (whole[:, None] + np.array(FRACTIONS)).ravel()
    good, year = compare(ctx, mjd, f"in {first}..{last}")
    step = np.diff(year)
    resolved = np.diff(mjd) > 800 * np.spacing(np.abs(year[1:]))
    ctx.require(bool(np.all(step >= 0) and np.all(step[resolved] > 0)), f"decimal year is strictly increasing in {first}..{last}")
    if not good:
        return
    # decimal years to days: whole years and a regular division of each year
    for y in range(first, last):
        parts = np.arange(0, 97) / 97
        dec = y + parts
        length = 365 if y == REFORM else year_length(y)
        exact = start(y) + (LD(1) * dec - y) * length
        got = em.decimal_year_to_mjd2000(dec)
        if not ctx.close(got, exact.astype(float), rtol=2.3e-16, atol=1e-13, what=f"MJD2000 of the decimal year {y}"):
            return
        ctx.require(bool(np.all(np.diff(got) > 0)), f"MJD2000 is strictly increasing in {y}")
    ctx.state(first, last)


def boundary_cases(tier):
    yield {"year": REFORM}
    for y in range(-4711, 100900, 4):
        yield {"years": [k for k in range(y, y + 4) if k != REFORM]}


@group("C12", "year boundaries", boundary_cases, chunk=64)
def boundaries(ctx, case):
    """ the moments around the starts of 4 years """
    for year in case.get("years", [case.get("year")]):
        last = start(year + 1)
        unit = np.spacing(float(abs(last)))
        near = np.array([last - 1e-3, last - 1e-6, last - 1e-8, float(last), last + 1e-8, last + 1e-6, last + 1e-3])
        compare(ctx, near, f"near the end of {year}")
        at = em.mjd2000_to_decimal_year(np.array([last - unit, last, last + unit], dtype=float))
        ctx.require(at[1] == year + 1, f"start of the year {year + 1}: {at[1]!r}")
        ctx.require(em.mjd2000_to_year_fraction(float(last)) == 0, f"fraction at the start of {year + 1}")
        ctx.require(em.decimal_year_to_mjd2000(float(year + 1)) == last, f"MJD2000 of the start of {year + 1}")
        ctx.require(bool(at[0] <= at[1] <= at[2]), f"order at the start of {year + 1}")
        ctx.require(year + 1 - at[0] < 1e-9 + np.spacing(year + 1.0), f"decimal year jumps at the end of {year}: {at.tolist()}")
        step = np.spacing(float(max(abs(year), 1)))
        dec = np.array([year + 1 - 2 * step, year + 1, year + 1 + 2 * step], dtype=float)
        got = em.decimal_year_to_mjd2000(dec)
        if not ctx.require(bool(np.all(np.diff(got) >= 0)), f"MJD2000 decreases at the end of the decimal year {year}: {got.tolist()}"):
            continue
        ctx.require(got[2] - got[0] < 4 * step * 367 + 4 * unit, f"MJD2000 jumps at the end of {year}: {got.tolist()}")
        ctx.transition(1)
    ctx.observe(got)


@group("C12", "undefined times", lambda tier: [[0]], chunk=1)
def undefined(ctx, case):
    nan, inf = np.nan, np.inf
    for func in (em.mjd2000_to_decimal_year, em.mjd2000_to_year_fraction, em.decimal_year_to_mjd2000,
                 time_util.mjd2000_to_decimal_year_simple, time_util.mjd2000_to_year_fraction_simple, time_util.decimal_year_to_mjd2000_simple):
        ctx.require(bool(np.isnan(func(nan))), f"{func.__name__}(nan)")
        ctx.same(np.isnan(func([nan, 0.0, nan])), [1, 0, 1], f"{func.__name__} of an array with NaN")
        for value in (inf, -inf):
            got = func(value)
            ctx.require(not np.isfinite(got), f"{func.__name__}({value}) gives {got!r}")
    for func in (em.mjd2000_to_decimal_year, em.decimal_year_to_mjd2000):
        ctx.same(func([inf, -inf]), [inf, -inf], f"{func.__name__} of infinities")


# --- datetime and simplified conversions ------------------------------------------------

EPOCH = datetime.datetime(2000, 1, 1)
CLOCK = [(0, 0, 0, 0), (0, 0, 0, 1), (11, 59, 59, 999999), (12, 0, 0, 0), (23, 59, 59, 999999)]


def datetime_cases(tier):
    years = range(1, 10000)
    if tier == "quick":     # every kind of year, every century, and all recent years
        years = [y for y in years if y < 5 or y % 100 in (0, 4, 99) or 1580 <= y <= 1585 or 1900 <= y <= 2100 or y > 9996]
    return [[y] for y in years]


@group("C12", "datetime", datetime_cases, chunk=8)
def date_times(ctx, case):
    """ every day of a year given as datetime objects """
    year = case[0]
    first = datetime.datetime(year, 1, 1)
    # length of the year in the calendar of datetime (proleptic Gregorian)
    length = (datetime.date(year, 12, 31) - datetime.date(year, 1, 1)).days + 1
    previous = None
    for day in range(length):
        date = first + datetime.timedelta(days=day)
        for clock in CLOCK:
            moment = date.replace(hour=clock[0], minute=clock[1], second=clock[2], microsecond=clock[3])
            got = time_util.datetime_to_decimal_year(moment)
            micro = ((clock[0] * 60 + clock[1]) * 60 + clock[2]) * 1000000 + clock[3]
            exact = float(year + (LD(day) * 86400000000 + micro) / (LD(length) * 86400000000))
            ctx.compared += 1
            if abs(got - exact) > 2 * np.spacing(exact):
                ctx.fail(f"{moment.isoformat()} gives {got!r}, expected {exact!r}")
                return
            if previous is not None and got < previous:
                ctx.fail(f"decimal year decreases at {moment.isoformat()}")
                return
            previous = got
            # the same instant through MJD2000, where the calendars are the same
            if year > REFORM and clock[3] == 0:
                mjd = (date - EPOCH).days + micro / 86400e6
                ctx.compared += 1
                if abs(em.mjd2000_to_decimal_year(mjd) - got) > 4 * np.spacing(exact):
                    ctx.fail(f"{moment.isoformat()}: datetime and MJD2000 conversions differ")
                    return
    ctx.count(length * len(CLOCK))
    ctx.observe(np.array([previous]))


@group("C12", "datetime arguments", lambda tier: [[0]], chunk=1)
def date_arguments(ctx, case):
    for bad in (2000.5, "2000-01-01", None, datetime.date(2000, 1, 1)):
        ctx.raises(lambda: time_util.datetime_to_decimal_year(bad), f"{bad!r}", (TypeError,))


@group("C12", "simplified conversions", lambda tier: [[k] for k in range(-400, 400)] if tier == "thorough" else [[k] for k in range(-40, 40)], chunk=8)
def simplified(ctx, case):
    mjd = (case[0] * 1000 + np.arange(0, 1000, 0.25)) * 1.0
    exact = LD(2000) + mjd.astype(LD) / LD(365.25)
    dec = time_util.mjd2000_to_decimal_year_simple(mjd)
    ctx.count(3 * mjd.size)
    ctx.close(dec, exact.astype(float), rtol=3e-16, atol=5e-13, what="simplified decimal year")
    ctx.require(bool(np.all(np.diff(dec) > 0)), "simplified decimal year increases")
    frac = time_util.mjd2000_to_year_fraction_simple(mjd)
    ctx.require(bool(np.all((frac >= 0) & (frac < 1))), "range of the simplified year fraction")
    turn = np.abs(frac - (exact - np.floor(exact)).astype(float))
    ctx.close(np.minimum(turn, 1 - turn), np.zeros(mjd.size), rtol=0, atol=2e-12, what="simplified year fraction")
    back = time_util.decimal_year_to_mjd2000_simple(dec)
    ctx.close(back, mjd, rtol=1e-15, atol=4e-10, what="simplified conversion there and back")
    ctx.close(time_util.decimal_year_to_mjd2000_simple(exact.astype(float)), ((exact.astype(float).astype(LD) - 2000) * LD(365.25)).astype(float),
              rtol=1e-15, atol=4e-10, what="simplified MJD2000")
    ctx.same(time_util.mjd2000_to_decimal_year_simple(float(mjd[5])), dec[5], "single value")
    # exact multiples of a Julian year
    k = case[0]
    ctx.same(time_util.mjd2000_to_decimal_year_simple(365.25 * k), 2000.0 + k, "whole Julian years")
    ctx.same(time_util.mjd2000_to_year_fraction_simple(365.25 * k), 0.0, "whole Julian years")
    ctx.same(time_util.decimal_year_to_mjd2000_simple(2000.0 + k), 365.25 * k, "whole Julian years")
