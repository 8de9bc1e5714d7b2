#!/usr/bin/env python3
"""Rewrites the tables of DESIGN.md: planted bugs (from seeded/*/meta.json) and quiet edits (from quiet/*.diff)."""
import glob, json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in glob.glob(ROOT + "/seeded/*/meta.json"):
    d = json.load(open(m))
    rows.append((d["property"], os.path.basename(os.path.dirname(m)), d["needs"]))
table = ["| property | planted bug | needs |", "|---|---|---|"] + ["| %s | %s | %s |" % r for r in sorted(rows)]
quiet = sorted(os.path.basename(q)[:-5] for q in glob.glob(ROOT + "/quiet/*.diff"))
path = ROOT + "/DESIGN.md"
s = open(path).read()


def put(s, name, text):
    return re.sub(r"<!-- %s -->.*?<!-- /%s -->" % (name, name), lambda _: "<!-- %s -->\n%s\n<!-- /%s -->" % (name, text, name), s, flags=re.S)


s = put(s, "table", "\n".join(table))
s = put(s, "quiet", ", ".join(quiet) + ".")
open(path, "w").write(s)
