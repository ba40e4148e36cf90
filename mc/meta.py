""" Per-property metadata used by the runner, the manifest and the evidence. """
VARIANT = {"C19": "asan", "C20": "sched"}
LEVEL = {f"C{num:02d}": "exploration" for num in range(1, 21)}
TECHNIQUE, BOUNDS, RULE, ASSUMPTIONS = {}, {}, {}, {}
COMMON_ASSUMPTIONS = [
    "IEEE-754 double arithmetic and the installed libm, NumPy and CPython are trusted",
    "values outside the enumerated alphabets are not covered",
]

DIRECT = "stateless model checking of the real code: exhaustive enumeration of a bounded input/history space against an independent reference model"


def define(prop, bounds, technique=DIRECT, level="exploration", assumptions=(), rule=None):
    TECHNIQUE[prop] = technique
    BOUNDS[prop] = bounds
    LEVEL[prop] = level
    ASSUMPTIONS[prop] = list(assumptions)
    if rule:
        RULE[prop] = rule


define("C01", "every single basis function up to degree 8 (20 thorough) plus the high-degree algorithm up to 24 (120), all 3x3 frames x 3 modes x scale menu x int/ext, all degree arguments, polar neighbourhood down to 1e-15 deg for degrees up to 40 (500), closed form at the poles for degrees up to 1440 (2600); tolerance 1e-10*(degree+2) of the sum of the terms",
       assumptions=["geodetic coordinates are compared outside a 1000 km core only (they are ambiguous near the centre)"])
define("C02", "Legendre, cos/sin and radial series for every degree up to 40 (130 and up to 1000 thorough), all argument forms, sum rules and polar values for degrees up to 1440 (2600), sums of separate blocks vs definition and vs the fused evaluation")
define("C03", "all element sequences up to length 3 (2 for models and quasi-dipole; one more in thorough, at most 12k/400k per function), every ordered pair of neighbours in one array, 13 (20) shapes x all broadcast prefixes, for every public function in mc/catalog.py; arrays of every length 1..69 and up to 65537; every pair of arguments x 14 pairs of contradicting dimensions; arrays of 4..15 dimensions",
       level="exploration")
define("C04", "every public function of mc/catalog.py x 24 ways of holding the arguments (memory layouts, containers, element types) x every argument subset x shapes up to rank 2 (3); all zero-stride masks of up to 2 arguments; all pairs of same-kind arguments aliased; all ordered pairs of functions (193x193); all ordered pairs of 10 calls per model and frame; results of 61 kinds of calls changed by the caller; arguments of fewer dimensions held in 21 ways; every ordered pair (triple) of 5..48 parameter sets of 38 functions and models against the call alone in a fresh process")
define("C05", "bisection and interpolation for every subset of 4 seven-node grids (huge, tiny, uneven) with queries at, next to, between and outside all nodes, duplicated nodes, undefined snapshots; all permutations of up to 4 (5) snapshots x order x time domain for the coefficient objects; all query sequences of length 3 through the fused evaluation of 1-3 series; every order of the listed terms; every list with a repeated or impossible term is refused; all combinations of shapes of the arrays of a series; series and query arrays of up to 1025 nodes")
define("C06", "all sequences/sums of up to 3 (4) sets over 13 validity intervals, 12 nested tree shapes over 8 intervals (3 and 4 leaves), 9 tree shapes x all kinds of sets (constant, linear, step, decimal-year), 1..23 (59) members, rotated sequences of up to 12 (29) sets, all source patterns; times at, next to, between and outside of all interval ends; times of the composed tables of all the trees; one object listed at several places of sums and sequences")
define("C07", "explicit-state exploration of the component list: all sequences of up to 3 additions (4 over 8 of them in thorough) from 16 additions, each state evaluated in 9 frames x 6 call-option sets x 4 time/location forms (a fixed fraction of these for 3 additions), plus all histories of additions interleaved with evaluations, unchanged-object checks for all ordered pairs, and later changes of nested compositions; 4..100 components; vanishing component scales")
define("C08", "all pairs of 12 lower x 12 upper limits (absent, negative, 0..8) for 34 coefficient sets (7 sparse degree patterns x 4 kinds, sums, sequences, nested) and 7 ionospheric sets; all partitions of degrees 1..4 into 2-4 (5) ranges for 13 model kinds; component limits against call limits")
define("C09", "a grid of 120 (1000) latitudes down to 1e-14 deg from the poles and 1e-300 deg from the equator x 20 longitudes x 19 heights / 14 radii and 700 Cartesian points on and near axes per radius: all 9 conversions against the formulas in extended precision, all 27 chains, ranges, order and symmetry",
       assumptions=["points within 1000 km of the centre are not covered"])
define("C10", "rotations at 60 (460) latitudes down to 1e-14 deg from the poles x 20 longitudes against the frame axes in extended precision; all 9 rotations, 27 chains and 9 inverses at every point of 120 points of both systems x longitudes x 8 vectors; inclination, declination and intensity for all vectors over 11 (17) component values per axis",
       assumptions=["coordinate tangents are differentiated numerically outside 1 deg of the poles only"])
define("C11", "144 (1080) pole positions including the geographic poles: rotation matrix, coordinates of 308 points in 3 systems and 4 vectors at each in 3 output frames; field evaluation in the dipole frame for 8 (37) poles x 9 frames x modes x scales x degrees and for 5 kinds of models, and the magnetic time of 120 given and 100 default sub-solar points per pole, all against the rotation in extended precision",
       assumptions=["magnetic time is compared weighted by the distance of the sub-solar point from the dipole axis, where it is undefined"])
define("C12", "every day of the years -4712..10100 (100900 thorough) at 5 moments, 97 decimal years in each year, the moments around every one of 105600 year ends, every day of 504 (9999) years as datetime at 5 moments, and 320k (3.2M) simplified conversions, against day-by-day counted calendars",
       assumptions=["dates before the Julian day 0 (-4712-01-01) are outside of the formulas' range and are not covered"])
define("C13", "Fourier sums for all extents with 8x8 lowest degrees and 4x4 sizes (14x14, 6x6) and every single term; coefficients and direct evaluation for 6 extents x 3 degree patterns x 9 frames; models for 4 extents x 4 poles x 9 frames x F10.7 x sub-solar points x 3 Wolf ratios x options; 3 ionosphere heights x 8 radii around the switch; all 3-point (4-point) arrays over 10 ways of being undefined; all 32 mixes of single values and arrays; Earth radii around the standard one; seasons by the model's own function")
define("C14", "all degree patterns x header/row/comment/format variants of SHC (1..5 snapshots, all permutations of up to 4), IGRF, WMM, EMM, MIO and MMA (CDF) files, combinations of up to 3 SHC files, all single contradictions (missing/extra rows, columns, times, headers, repeated and impossible terms), and every bundled file parsed independently; loaded coefficients, degrees, validity and field values are compared with the written numbers; files of up to degree 33 (100) and 500 (3000) snapshots; 7 ways of writing the digits of the numbers in 3 magnitudes in all formats",
       assumptions=["comment lines stand before the header only", "header degree ranges that contradict the rows are informative"])
define("C15", "8 ways of stating the validity x 4 series x orders for every kind of coefficient set, all sequences and sums of up to 3 of 8 intervals, all sums of up to 3 (4) of 9 kinds of models and their nesting, ionospheric models, files of all formats and all bundled files; times at, one double next to, 1 and 1000 days around every end, as single times, arrays in both orders and tables, in all frames and with options; gaps between validities from one double to one day")
define("C16", "8 models x 140 start points (incl. poles, below, at and above the limits) x 7 radius limits x 4 steps x up to 5 step counts; 9 frames for 20 start points; 7 prescribed fields x 5 starts x steps with limits one double before, at and after every reached radius; vanishing fields; 11 forms of the start point x options; all sequences of 2 (3) lines; each step of each line is checked against the field in extended precision; lines of up to 1025 steps",
       assumptions=["fields below 1e-150 nT, whose squared magnitude underflows, are not covered", "a start point outside of the limits makes at least one step in each direction"])
define("C17", "explicit-state exploration of the quasi-dipole module: all histories of 3 calls over 54 operations (7 coefficient files incl. malformed, missing and very long names, errors, local time, sub-solar point, batches), all histories of 4 (5) over 17 core operations, of 2 (3) with the bundled files, all 3-(4-)element batches over 15 (12) elements and long batches; each call is compared with the same call alone in a fresh process; values by definition at every kind of epoch; files of names of 1, 9 and 200 characters under 0, 1 and 3 long folders against names different in any single character, in length, blanks, case or folder; one file changing between 7 states (missing, folder, malformed, two contents) before each of 3 calls")
define("C18", "every day of the years 1601..2100 at 31 (151) moments: solar position against the published algorithm in extended precision, the sub-solar point against the Astronomical Almanac, both against an independent ephemeris and each other; every midnight of these years and every minute of 40 (2500) days for continuity; azimuth and zenith angles at 108 places incl. poles, sub-solar and horizon points for 132 (1900) days x 4 radii; magnetic local time for every day of 1900..2100 at 6 (25) moments and all longitudes; all batches of 1-3 (4) out-of-range and valid times; the clock correction of the original implementation",
       assumptions=["solar_position has no stated range of supported times; it is compared within 1601..2100", "sunpos_original is documented for 2000-03-01..2400-02-29 only"])
define("C20", "2 threads under a controlled scheduler: one preemption before every executed line for all pairs of 2-14 calls on 29 shared objects (models of all kinds, sums, coefficient sets, field lines, plain functions, quasi-dipole, file loaders), before every bytecode instruction for core pairs, two preemptions for core pairs, and 3 threads with two preemptions; and every native call made while any array argument of any native call is being converted; every schedule is executed on fresh objects of the real code and every result compared with the call alone",
       technique="stateless model checking of the real threads: systematic enumeration of all schedules up to a preemption bound under a controlled scheduler (Python lines and instructions, argument conversions, native code without the interpreter lock)",
       assumptions=["switches happen at the enumerated points only: between lines or instructions of the package, in conversions of array-like arguments and at function calls of native code which released the interpreter lock"],
       rule="every schedule is one evaluation; a case (pair of calls, first preemption point) counts when distinct by its numbers of steps")
define(
    "C19",
    "78 functions, constructors and models x every argument x ~180 malformed "
    "values (types, numbers, shapes, fills, element types, layouts, objects "
    "failing in conversion), repeated; all pairs of native arguments x 40x40 "
    "(triples x 22^3 and pairs of Python arguments in thorough); all ways of "
    "passing arguments; valid and nearly valid calls for every degree 0..65 "
    "(129) and 100, 200, 400, every number of sets, terms, nodes and shapes; "
    "files of 6 formats truncated at every byte, every line and item damaged, "
    "17 odd names; every single allocation of 122 representative calls failing "
    "in turn; on a build with address sanitizer and bounds checks",
    technique="exhaustive enumeration of malformed inputs and exhaustive fault "
    "injection (every allocation point) on the real code under the address "
    "sanitizer, with memory and reference accounting",
    level="fault_enumeration",
    assumptions=(
        "allocations of the Fortran runtime library (which ends the process by "
        "itself) and of NumPy called from Python code are not failed",
        "objects changing an array's shape while being converted are not covered",
        "references lost by NumPy itself (failing conversions, dot) are not counted",
    ),
)
