#!/usr/bin/env python3
"""Rewrites the part of DESIGN.md after the SEEDED mark: the table of planted bugs."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "<!-- SEEDED -->\n"


def main():
    d = os.path.join(HERE, "DESIGN.md")
    s = open(d).read()
    seeds = os.path.join(HERE, "seeded")
    rows = ["| planted bug | needs | what it breaks |", "|---|---|---|"]
    for i in sorted(os.listdir(seeds)):
        m = json.load(open(os.path.join(seeds, i, "meta.json")))
        rows.append("| %s | %s | %s |" % (i, m["needs"].strip().replace("|", "\\|"), m["what_it_breaks"].strip().replace("|", "\\|")))
    open(d, "w").write(s[:s.index(MARK) + len(MARK)] + "\n".join(rows) + "\n")


main()
