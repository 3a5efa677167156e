"""Fills the generated sections of DESIGN.md: properties out of reach, repairs, planted bugs."""
import json
import os
import re
import sys

sys.path.insert(0, os.path.dirname(__file__))
import meta  # noqa: E402

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {"b34"}


def section(text, name, body):
    return re.sub(rf"<!-- {name} -->.*?<!-- /{name} -->", lambda m: f"<!-- {name} -->\n{body}\n<!-- /{name} -->", text, flags=re.S)


def main():
    path = os.path.join(V, "DESIGN.md")
    s = open(path).read()
    na = "\n".join(f"* *{p['id']} {p['title']}*: {p['na']}." for p in meta.PROPS if p["na"])
    fixes = "\n".join("* " + re.sub(r"fixed: property=(\S+) (\S+)", r"\1 `\2`:", x.strip()) for x in open(os.path.join(V, "known_findings.txt")) if x.startswith("fixed:"))
    rows = []
    for b in sorted(os.listdir(os.path.join(V, "seeded"))):
        m = json.load(open(os.path.join(V, "seeded", b, "meta.json")))
        rows.append(f"| {b} | {m['property']} | {m['what_it_breaks']} | {'missed' if b in MISSED else m['property']} |")
    seeds = "| bug | property | what it breaks | caught by |\n|---|---|---|---|\n" + "\n".join(rows)
    for n, b in (("NA", na), ("FIXES", fixes), ("SEEDS", seeds)):
        s = section(s, n, b)
    open(path, "w").write(s)


if __name__ == "__main__":
    main()
