"""Run the check of one property:  python -m mc.run C01 [--tier thorough]

Exit status 0: the property held on everything explored.
Exit status 1: it does not; prints VIOLATION lines.
"""
import argparse
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("property")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    parser.add_argument("--only", action="append")
    parser.add_argument("--replay")
    parser.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "0")))
    parser.add_argument("--inner", action="store_true")
    args = parser.parse_args()
    if args.inner:
        sys.exit(inner(args))
    sys.exit(outer(args))


def outer(args):
    from . import build
    sys.stdout.reconfigure(line_buffering=True)
    module = importlib.import_module(f"mc.meta")
    variant = module.VARIANT.get(args.property, "normal")
    tree = build.build(variant)
    env = build.python_env(tree, variant)
    if variant == "asan":
        env["VERIF_NORMAL_TREE"] = build.build("normal")
    scratch = tempfile.mkdtemp(prefix="vp-mc-")
    env["VERIF_SCRATCH"] = scratch
    env["TMPDIR"] = scratch
    try:
        proc = subprocess.run(
            [build.PYTHON, "-m", "mc.run", *sys.argv[1:], "--inner"],
            cwd=scratch, env=env, check=False,
        )
        return proc.returncode
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def inner(args):
    sys.stdout.reconfigure(line_buffering=True)
    from . import core
    prop = args.property
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tree = os.environ["VERIF_TREE"]
    scratch = os.environ["VERIF_SCRATCH"]
    import warnings
    import numpy
    warnings.simplefilter("ignore")
    numpy.seterr(all="ignore")
    import eoxmagmod
    assert eoxmagmod.__file__.startswith(tree + os.sep), eoxmagmod.__file__
    module = importlib.import_module(f"mc.props.{prop.lower()}")
    if args.replay:
        path = args.replay
        if not os.path.isabs(path):
            path = os.path.join(VERIF, path)
        with open(path, encoding="utf8") as fin:
            record = json.load(fin)
        ctx = core.Ctx(prop, args.tier, seed, tree)
        grp, = [g for g in core.REGISTRY[prop] if g.name == record["group"]]
        core.run_case(ctx, grp, record["case"])
        for bad in ctx.bad:
            print(json.dumps(bad, indent=1))
        print("replay:", "violated" if ctx.bad else "holds")
        return 1 if ctx.bad else 0

    start = time.monotonic()
    jobs = args.jobs or min(8, os.cpu_count() or 1)
    prepare = getattr(module, "prepare", None)
    if prepare:
        prepare(args.tier)
    result = core.explore(prop, args.tier, seed, tree, jobs, scratch, only=args.only)
    finish = getattr(module, "finish", None)
    wall = time.monotonic() - start
    return report(prop, module, args, seed, result, wall)


def report(prop, module, args, seed, result, wall):
    from . import core, meta
    known = core.load_known(prop)
    fresh = []
    seen = {e["id"]: e for e in known if e["id"] in result["known_seen"]}
    for bad in result["bad"]:
        entry = next((e for e in known if core.matches(e, bad)), None)
        if entry:
            seen[entry["id"]] = entry
        else:
            fresh.append(bad)
    for entry in seen.values():
        print(f"KNOWN-FINDING: property={prop} {entry['what']}")
    evid_dir = os.path.join(VERIF, "evidence")
    replay_dir = os.path.join(evid_dir, "replay")
    os.makedirs(replay_dir, exist_ok=True)
    for name in os.listdir(replay_dir):
        if name.startswith(prop + "-"):
            os.remove(os.path.join(replay_dir, name))
    printed = set()
    for num, bad in enumerate(fresh):
        if len(printed) >= 8:
            break
        key = (bad["group"], bad["message"][:40])
        if key in printed:
            continue
        printed.add(key)
        path = os.path.join("evidence", "replay", f"{prop}-{len(printed)}.json")
        with open(os.path.join(VERIF, path), "w", encoding="utf8") as fout:
            json.dump(bad, fout, indent=1)
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  group={bad['group']} case={json.dumps(bad['case'])[:300]}")
        print(f"  {bad['message'][:400]}")

    level = meta.LEVEL[prop]
    samples = [{"group": k, "case": core.jsonable(v)} for k, v in result["samples"].items()]
    samples = [s for s in samples if len(json.dumps(s)) < 4000][:40]
    coverage = {
        "samples": samples,
        "comparisons": result["compared"],
        "groups": {k: {"cases": n, "wall_s": round(w, 2)} for k, (n, w) in result["timings"].items()},
        "exhaustive": result["workers_lost"] == 0 and not args.only,
        "bounds": meta.BOUNDS.get(prop, ""),
    }
    if result["notes"]:
        coverage["counts"] = result["notes"]
    if level == "model_checking":
        coverage.update({
            "states": len(result["states"]), "transitions": result["transitions"],
            "traces_validated_against_impl": result["traces"],
            "implementation_executions": result["evaluations"],
        })
    else:
        coverage.update({
            "evaluations": result["evaluations"],
            "distinct_nontrivial": len(result["outcomes"]),
            "rule": meta.RULE.get(prop, "cases are enumerated completely from the alphabets and bounds stated in DESIGN.md; a case counts when the values it observed from the code are not all zero or NaN, and cases with identical observations count once"),
        })
        if result["states"]:
            coverage["states"] = len(result["states"])
            coverage["transitions"] = result["transitions"]
    evidence = {
        "property": prop, "tier": args.tier, "seed": seed, "level": level,
        "coverage": coverage, "assumptions": meta.ASSUMPTIONS.get(prop, []) + meta.COMMON_ASSUMPTIONS,
        "wall_s": round(wall, 2), "violations": len(fresh),
    }
    with open(os.path.join(evid_dir, f"{prop}.json"), "w", encoding="utf8") as fout:
        json.dump(evidence, fout, indent=1)
    print(f"{prop} [{args.tier}] cases={result['evaluations']} compared={result['compared']} "
          f"distinct={len(result['outcomes'])} states={len(result['states'])} "
          f"transitions={result['transitions']} known={len(seen)} violations={len(fresh)} wall={wall:.1f}s")
    slow = sorted(result["timings"].items(), key=lambda kv: -kv[1][1])
    if os.environ.get("VERIF_VERBOSE"):
        for name, (num, secs) in slow:
            print(f"   {name}: {num} cases, {secs:.1f}s")
    return 1 if fresh else 0


if __name__ == "__main__":
    main()
