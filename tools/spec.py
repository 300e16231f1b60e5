#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one description of the properties."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, note, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, na=na))
exec(open(os.path.join(here, "tools", "properties.py")).read())
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]]))) + "\n")
m = dict(version=1,
    setup_cmd="cd engine && GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=vendor CGO_ENABLED=0 go build -o ../bin/vse .",
    checks=[dict(property=p["id"], quick_cmd="bin/vse check %s quick" % p["id"], thorough_cmd="bin/vse check %s thorough" % p["id"],
        technique="symbolic execution of the Go SSA of the real code, decided by an SMT solver (z3), counterexamples replayed natively",
        level="model_checking", level_note=p["note"]) for p in P if not p["na"]],
    not_applicable=[dict(property=p["id"], reason=p["na"]) for p in P if p["na"]])
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
