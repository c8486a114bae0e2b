#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run it after editing)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
P = []
NA = []
AI = "abstract interpretation over the type-checked LLVM IR"

def prop(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, na=None, level="other"):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    P.append((d, technique, note, na, level))

BASE_NOTE = ("Sound for the stated entry points within the listed assumptions: every path of the compiled IR is "
  "covered symbolically for all values and lengths; loops are summarised by inferred linear invariants. "
  "Trusts clang's front end, the exporter, the engine, and the models of libc/libstdc++ calls. "
  "An obligation the engine cannot decide is reported as UNDECIDED in the evidence, not as an alarm.")

exec(open(os.path.join(HERE, "props.py")).read())

def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for d, *_ in P:
            assert len(d["title"]) <= 80, d["title"]
            f.write(json.dumps(d) + "\n")
    checks, nas = [], []
    for d, tech, note, na, level in P:
        if na:
            nas.append(dict(property=d["id"], reason=na)); continue
        checks.append(dict(property=d["id"],
            quick_cmd="python3 /verif/run.py %s" % d["id"],
            thorough_cmd="python3 /verif/run.py %s --thorough" % d["id"],
            evidence_file="evidence/%s.json" % d["id"],
            technique=tech or AI, level=level, level_note=note or BASE_NOTE))
    m = dict(version=1, setup_cmd="bash /verif/setup.sh", checks=checks, not_applicable=nas)
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1); f.write("\n")
main()
