""" Fill the generated parts of DESIGN.md (repairs, planted bugs). """
import json
import os
import re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def section(text, title, body):
    """ replace the part between the markers """
    start, end = f"<!-- {title} -->", f"<!-- end {title} -->"
    block = f"{start}\n{body}\n{end}"
    if start in text:
        return re.sub(re.escape(start) + ".*?" + re.escape(end), lambda _: block, text, flags=re.S)
    return text.replace(f"@{title.upper()}@", block)


def main():
    path = os.path.join(VERIF, "DESIGN.md")
    with open(path, encoding="utf8") as fin:
        text = fin.read()
    with open(os.path.join(VERIF, "known_findings.json"), encoding="utf8") as fin:
        fixed = json.load(fin)["fixed"]
    rows = ["| property | commit | what failed |", "|---|---|---|"]
    for line in sorted(fixed):
        prop, commit, what = re.match(r"fixed: property=(\S+) (\S+) (.*)", line).groups()
        rows.append(f"| {prop} | {commit} | {what} |")
    text = section(text, "fixed", "\n".join(rows))
    results = {}
    notes = os.path.join(VERIF, "seeded_results.json")
    if os.path.exists(notes):
        with open(notes, encoding="utf8") as fin:
            results = json.load(fin)
    rows = ["| bug | property | what it breaks | result |", "|---|---|---|---|"]
    folder = os.path.join(VERIF, "seeded")
    for name in sorted(os.listdir(folder)):
        meta = os.path.join(folder, name, "meta.json")
        if os.path.exists(meta):
            with open(meta, encoding="utf8") as fin:
                data = json.load(fin)
            rows.append(f"| {name} | {data['property']} | {data['what_it_breaks']} | {results.get(name, '')} |".replace("\n", " "))
    text = section(text, "seeded", "\n".join(rows))
    with open(path, "w", encoding="utf8") as fout:
        fout.write(text)


if __name__ == "__main__":
    main()
