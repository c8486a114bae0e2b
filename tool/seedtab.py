#!/usr/bin/env python3
"""rewrite the table of planted bugs at the end of DESIGN.md (development helper; no check uses it)"""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {"S09": "C14: longer texts, length not a multiple of 4", "S21": "C03: raw data added",
          "S23": "C04: texts with number beginnings, longer texts", "S26": "C13: sizes whose low bits are small",
          "S33": "C24: fractions with many leading zeros", "S35": "C16: the view returned when the text does not fit"}
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
i = s.index("| id | property")if "| id | property" in s else len(s)
t = "| id | property (caught by) | what it breaks | needs | first missed |\n|---|---|---|---|---|\n"
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    d = json.load(open(f)); k = os.path.basename(os.path.dirname(f))
    c = lambda x: x.replace("|", "/").replace("\n", " ")
    t += "| %s | %s | %s | %s | %s |\n" % (k, d["property"], c(d["what_it_breaks"]), c(d["needs"]), MISSED.get(k, ""))
open(p, "w").write(s[:i] + t)
