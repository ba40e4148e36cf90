"""Exploration engine shared by all checks.

A property module registers *groups*.  A group is a finite, deterministic,
completely enumerated family of cases (JSON values) together with a function
that runs one case against the code under test and compares every observation
with the reference model.  All cases of all groups are executed, spread over
worker processes; nothing is sampled.  A case can be re-run alone from the
JSON file named in the VIOLATION line.
"""
import ctypes
import hashlib
import json
import math
import mmap
import os
import signal
import struct
import sys
import time
import traceback

import numpy as np

from .meta import VARIANT

SLOT = 1 << 16


class Group:
    def __init__(self, name, cases, run, serial=False, chunk=1):
        self.name, self.cases, self.run = name, cases, run
        self.serial, self.chunk = serial, chunk


REGISTRY = {}


def group(prop, name=None, cases=None, chunk=8):
    """ Decorator: register run(ctx, case) with its case enumerator
    cases(tier) -> iterable of JSON-able values. """
    def deco(func):
        REGISTRY.setdefault(prop, []).append(
            Group(name or func.__name__, cases, func, chunk=chunk)
        )
        return func
    return deco


def jsonable(value):
    if isinstance(value, dict):
        return {str(k): jsonable(v) for k, v in value.items()}
    if isinstance(value, (list, tuple)):
        return [jsonable(v) for v in value]
    if isinstance(value, np.ndarray):
        return jsonable(value.tolist())
    if isinstance(value, np.generic):
        return jsonable(value.item())
    if isinstance(value, (str, int, bool)) or value is None:
        return value
    if isinstance(value, float):
        return value
    return repr(value)


KNOWN = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                     "known_findings.json")


def load_known(prop):
    """ Recorded genuine defects (open findings) of this property. """
    if not os.path.exists(KNOWN):
        return []
    with open(KNOWN, encoding="utf8") as fin:
        return [e for e in json.load(fin)["findings"] if e["property"] == prop]


def matches(entry, bad):
    """ Is this violation the listed finding?  All listed keys must agree. """
    if entry["property"] != bad["property"] or entry.get("group") != bad["group"]:
        return False
    case = bad["case"]
    for key, value in entry.get("case", {}).items():
        if not isinstance(case, dict) or case.get(key) != value:
            return False
    return all(text in bad["message"] for text in entry.get("message", []))


class Violation(Exception):
    """ Raised to stop the current case at the first discrepancy. """


class Ctx:
    """ Collects what the exploration covered and what it found. """
    MAX_KEEP = 40

    def __init__(self, prop, tier, seed, tree):
        self.prop, self.tier, self.seed, self.tree = prop, tier, seed, tree
        self.thorough = tier == "thorough"
        self.evaluations = 0
        self.transitions = 0
        self.traces = 0
        self.states = set()
        self.outcomes = set()
        self.bad = []
        self.bad_total = 0
        self.samples = {}
        self.group = None
        self.case = None
        self.compared = 0
        self.notes = {}
        self.known = load_known(prop)
        self.known_seen = {}
        self.breadcrumb = None

    # --- bookkeeping -----------------------------------------------------
    def begin(self, group_name, case):
        self.group, self.case = group_name, case
        self._hash = hashlib.blake2b(digest_size=8)
        self._hash.update(group_name.encode())
        self._nontrivial = False

    def end(self):
        self.evaluations += 1
        if self._nontrivial:
            self.outcomes.add(self._hash.digest())
        self.samples.setdefault(self.group, self.case)

    def count(self, number):
        """ Count additional evaluated inner executions of the case. """
        self.evaluations += int(number)
        if self.breadcrumb is not None:
            self.breadcrumb.alive()

    def state(self, *key):
        self.states.add(hashlib.blake2b(
            repr((self.group,) + key).encode(), digest_size=8).digest())

    def transition(self, number=1):
        self.transitions += int(number)
        if self.breadcrumb is not None:
            self.breadcrumb.alive()

    def trace(self, number=1):
        self.traces += int(number)

    def crumb(self, detail):
        """ name the step of the case, should the process end in it """
        if self.breadcrumb is not None:
            self.breadcrumb.set(json.dumps({"group": self.group, "case": jsonable(self.case), "detail": detail}))

    def note(self, key, value):
        self.notes[key] = self.notes.get(key, 0) + value

    def observe(self, value):
        arr = np.asarray(value)
        if arr.dtype == object:
            self._hash.update(repr(value).encode())
            self._nontrivial = True
        else:
            self._hash.update(np.ascontiguousarray(arr).tobytes())
            if arr.size and (arr.dtype.kind not in "fc" or np.any(np.nan_to_num(arr) != 0)):
                self._nontrivial = True

    # --- verdicts --------------------------------------------------------
    def fail(self, message, **info):
        record = {"property": self.prop, "group": self.group,
                  "case": jsonable(self.case), "message": message}
        for entry in self.known:
            if matches(entry, record):
                self.known_seen[entry["id"]] = self.known_seen.get(entry["id"], 0) + 1
                return
        self.bad_total += 1
        if len(self.bad) < self.MAX_KEEP:
            self.bad.append({
                "property": self.prop, "group": self.group,
                "case": jsonable(self.case), "message": message,
                "info": jsonable(info),
            })

    def require(self, condition, message, **info):
        self.compared += 1
        if not condition:
            self.fail(message, **info)
        return bool(condition)

    def close(self, actual, expected, rtol=1e-9, atol=1e-9, what="", scale=None, **info):
        """ Compare arrays; NaN equals NaN, infinities by sign.
        tolerance = atol + rtol*max(|expected|, scale) """
        actual = np.asarray(actual, dtype=float)
        expected = np.asarray(expected, dtype=float)
        self.compared += 1
        if actual.shape != expected.shape:
            self.fail(f"{what}: shape {actual.shape} instead of {expected.shape}", **info)
            return False
        self.observe(actual)
        if actual.size == 0:
            return True
        with np.errstate(all="ignore"):
            ref = np.abs(expected)
            if scale is not None:
                ref = np.maximum(ref, scale)
            good = (np.abs(actual - expected) <= atol + rtol*ref) & np.isfinite(expected)
            good |= np.isnan(actual) & np.isnan(expected)
            good |= actual == expected
        if np.all(good):
            return True
        where = np.argwhere(~good)[0]
        idx = tuple(int(i) for i in where)
        self.fail(
            f"{what}: got {actual[idx]!r}, expected {expected[idx]!r} at {list(idx)}"
            f" ({int((~good).sum())} of {good.size} differ)", **info)
        return False

    def same(self, actual, expected, what="", **info):
        return self.close(actual, expected, rtol=0, atol=0, what=what, **info)

    def raises(self, func, what="", exceptions=(Exception,), **info):
        self.compared += 1
        try:
            result = func()
        except exceptions as exc:
            self.observe(type(exc).__name__)
            return exc
        self.fail(f"{what}: accepted, returned {str(result)[:120]}", **info)
        return None

    def dump(self):
        return {
            "evaluations": self.evaluations, "transitions": self.transitions,
            "traces": self.traces,
            "states": sorted(self.states), "outcomes": sorted(self.outcomes),
            "bad": self.bad, "bad_total": self.bad_total,
            "samples": self.samples, "compared": self.compared,
            "notes": self.notes, "known_seen": self.known_seen,
        }


def run_case(ctx, grp, case):
    ctx.begin(grp.name, case)
    try:
        grp.run(ctx, case)
    except Violation:
        pass
    except MemoryError:
        raise
    except Exception as exc:  # an unexpected exception breaks the property
        tb = traceback.extract_tb(exc.__traceback__)
        where = "; ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb[-4:])
        ctx.fail(f"unexpected {type(exc).__name__}: {exc} [{where}]")
    ctx.end()


# --- parallel execution ------------------------------------------------------

class Breadcrumb:
    """ Shared memory slot naming the case being executed. """
    def __init__(self, path=None):
        self.mem = mmap.mmap(-1, SLOT)

    def alive(self):
        """ the case goes on """
        self.mem[0:8] = struct.pack("<d", time.monotonic())

    def set(self, text):
        data = text.encode()[: SLOT - 32]
        self.mem[16:20] = struct.pack("<I", len(data))
        self.mem[20:20 + len(data)] = data
        self.mem[0:8] = struct.pack("<d", time.monotonic())

    def clear(self):
        self.mem[0:8] = struct.pack("<d", 0.0)

    def get(self):
        started, = struct.unpack("<d", self.mem[0:8])
        size, = struct.unpack("<I", self.mem[16:20])
        return started, self.mem[20:20 + size].decode("utf8", "replace")


def _worker(prop, groups, tier, seed, tree, crumb, counter, lock, out_path, tickets, stop_at):
    import pickle
    if not os.environ.get("VERIF_STDERR"):
        # the native code writes warnings to the standard output and error streams
        name = out_path + ".err" if VARIANT.get(prop) else os.devnull
        sink = os.open(name, os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o600)
        os.dup2(sink, 1)
        os.dup2(sink, 2)
    ctx = Ctx(prop, tier, seed, tree)
    ctx.breadcrumb = crumb

    def next_ticket():
        with lock:
            value = counter.value
            counter.value = value + 1
            return value

    ticket = next_ticket()
    position = 0
    timings = {}
    for grp in groups:
        start = time.monotonic()
        index = 0
        chunk = []

        def flush(chunk):
            for case in chunk:
                crumb.set(json.dumps({"group": grp.name, "case": jsonable(case)}))
                run_case(ctx, grp, case)
                crumb.clear()

        for case in grp.cases(tier):
            chunk.append(case)
            if len(chunk) >= grp.chunk:
                if position == ticket:
                    flush(chunk)
                    ticket = next_ticket()
                position += 1
                chunk = []
            index += 1
        if chunk:
            if position == ticket:
                flush(chunk)
                ticket = next_ticket()
            position += 1
        timings[grp.name] = (index, time.monotonic() - start)
    result = ctx.dump()
    result["timings"] = timings
    with open(out_path, "wb") as fout:
        pickle.dump(result, fout)


def diagnosis(out_path):
    """ first lines of the report of the sanitizer, if any """
    try:
        with open(out_path + ".err", encoding="utf8", errors="replace") as fin:
            lines = [line.strip() for line in fin if "ERROR: " in line or "runtime error" in line or line.strip().startswith("#")]
    except OSError:
        return ""
    return (": " + " | ".join(lines[:8])[:1200]) if lines else ""


def explore(prop, tier, seed, tree, jobs, scratch, only=None, case_timeout=150.0):
    """ Run all groups of the property; return the merged result. """
    import multiprocessing as mp
    import pickle
    groups = [g for g in REGISTRY[prop] if not only or g.name in only]
    mpx = mp.get_context("fork")
    counter = mpx.Value(ctypes.c_long, 0, lock=False)
    lock = mpx.Lock()
    workers, alive, died = [], [], []

    def start():
        crumb = Breadcrumb()
        out_path = os.path.join(scratch, f"worker-{len(workers)}.pkl")
        proc = mpx.Process(target=_worker, args=(
            prop, groups, tier, seed, tree, crumb, counter, lock, out_path, None, None))
        proc.start()
        workers.append((proc, crumb, out_path))
        alive.append(workers[-1])

    for _ in range(jobs):
        start()
    while alive:
        time.sleep(0.05)
        for entry in list(alive):
            proc, crumb, out_path = entry
            if not proc.is_alive():
                proc.join()
                alive.remove(entry)
                if proc.exitcode != 0 or not os.path.exists(out_path):
                    _, text = crumb.get()
                    died.append((f"process ended (exit code {proc.exitcode}){diagnosis(out_path)}", text))
                    if len(workers) < 3 * jobs:
                        start()     # the other cases are still to be explored
                continue
            started, text = crumb.get()
            if started and time.monotonic() - started > case_timeout:
                os.kill(proc.pid, signal.SIGKILL)
                proc.join()
                alive.remove(entry)
                died.append((f"no answer within {case_timeout:.0f} s", text))
                if len(workers) < 2 * jobs:
                    start()

    merged = {
        "evaluations": 0, "transitions": 0, "traces": 0, "states": set(),
        "outcomes": set(), "bad": [], "bad_total": 0, "samples": {},
        "compared": 0, "timings": {}, "notes": {}, "known_seen": {}, "workers_lost": len(died),
    }
    for proc, crumb, out_path in workers:
        if not os.path.exists(out_path):
            continue
        with open(out_path, "rb") as fin:
            part = pickle.load(fin)
        for key in ("evaluations", "transitions", "traces", "bad_total", "compared"):
            merged[key] += part[key]
        merged["states"].update(part["states"])
        merged["outcomes"].update(part["outcomes"])
        merged["bad"].extend(part["bad"])
        for key, value in part["samples"].items():
            merged["samples"].setdefault(key, value)
        for key, value in part["known_seen"].items():
            merged["known_seen"][key] = merged["known_seen"].get(key, 0) + value
        for key, value in part["notes"].items():
            merged["notes"][key] = merged["notes"].get(key, 0) + value
        for key, (num, wall) in part["timings"].items():
            old = merged["timings"].get(key, (num, 0.0))
            merged["timings"][key] = (num, max(old[1], wall))
    for message, text in died:
        try:
            crumb = json.loads(text)
        except ValueError:
            crumb = {"group": None, "case": text}
        if "detail" in crumb:
            message = f"{crumb['detail']}: {message}"
        merged["bad_total"] += 1
        merged["bad"].append({
            "property": prop, "group": crumb["group"], "case": crumb["case"],
            "message": message, "info": {},
        })
    return merged
