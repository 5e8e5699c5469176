#!/usr/bin/env python3
"""Rewrites the generated parts of DESIGN.md: the property sections and the table of planted bugs.

The property sections come from properties.jsonl, the modules in pbt/props and the last evidence of the quick tier.
"""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "pbt"))
import env  # noqa: E402

env.load()
import importlib  # noqa: E402
from engine import Campaign  # noqa: E402


def sections():
    out = []
    for line in open(os.path.join(VERIF, "properties.jsonl")):
        p = json.loads(line)
        m = importlib.import_module("props." + p["id"].lower())
        ev = json.load(open(os.path.join(VERIF, "evidence", p["id"] + ".json")))
        bounds = []
        for c in m.CAMPAIGNS:
            if isinstance(c, Campaign):
                bounds.append("%s: %d random cases (thorough %d)" % (c.name, c.amount("quick"), c.amount("thorough")))
            else:
                n = ev["coverage"]["campaigns"].get(c.name, {}).get("cases")
                bounds.append("%s: complete enumeration%s" % (c.name, " (%d cases)" % n if n else ""))
        out += ["### %s %s" % (p["id"], p["title"]), "",
                "Method. " + m.RULE, "",
                "Bounds. %s. Quantifies over %s. Cost about %d s." % (
                    "; ".join(bounds), p["quantifier"]["text"], round(ev["wall_s"])), "",
                "Beyond tests. " + p["why_tests_cant"], ""]
        if m.ASSUMPTIONS:
            out += ["Assumes. " + " ".join(m.ASSUMPTIONS), ""]
        if getattr(m, "KNOWN", None):
            out += ["Known findings. " + " ".join("%s: %s." % (k[0], k[1]) for k in m.KNOWN), ""]
    return "\n".join(out)


def seeded():
    results = json.load(open(os.path.join(VERIF, "tools", "seeded_results.json")))
    out = ["| planted bug | needs | outcome of the property's check |", "|---|---|---|"]
    for name in sorted(os.listdir(os.path.join(VERIF, "seeded"))):
        meta = json.load(open(os.path.join(VERIF, "seeded", name, "meta.json")))
        r = results.get(name, ["", "not run", ""])
        out.append("| %s | %s | %s %s |" % (name, meta["needs"].replace("|", "/"), meta["property"], r[1]))
    return "\n".join(out) + "\n"


def main():
    path = os.path.join(VERIF, "DESIGN.md")
    text = open(path).read()
    for name, body in (("properties", sections()), ("seeded", seeded())):
        a, b = "<!-- %s: generated by tools/gen_design.py -->\n" % name, "<!-- end of %s -->\n" % name
        i, j = text.index(a) + len(a), text.index(b)
        text = text[:i] + body + text[j:]
    open(path, "w").write(text)


main()
