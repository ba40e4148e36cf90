""" Regenerate /verif/MANIFEST.json from mc.meta. """
import json
import os

from . import meta

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    checks, missing = [], []
    for num in range(1, 21):
        prop = f"C{num:02d}"
        if not os.path.exists(os.path.join(VERIF, "mc", "props", prop.lower() + ".py")):
            missing.append({"property": prop, "reason": "check not built yet"})
            continue
        cmd = f"/opt/venv/bin/python -m mc.run {prop} --tier "
        checks.append({
            "property": prop, "quick_cmd": cmd + "quick", "thorough_cmd": cmd + "thorough",
            "technique": meta.TECHNIQUE[prop], "level": meta.LEVEL[prop],
            "level_note": meta.BOUNDS[prop],
        })
    manifest = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python -m mc.build normal asan sched",
        "checks": checks, "not_applicable": missing,
        "notes": "Exhaustive bounded exploration of the real code against boring reference models; see DESIGN.md.",
    }
    with open(os.path.join(VERIF, "MANIFEST.json"), "w", encoding="utf8") as fout:
        json.dump(manifest, fout, indent=1)
        fout.write("\n")


if __name__ == "__main__":
    main()
