#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design/*.md, the description of the properties, the harnesses, the evidence, and the planted bugs."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, note, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, na=na))
exec(open(here + "/tools/properties.py").read())
O = {}
exec(open(here + "/tools/design/oracles.py").read())
D = here + "/tools/design/"
out = [open(D + "head.md").read(), "## Properties\n"]
for p in P:
    out.append("### %s %s\n" % (p["id"], p["title"]))
    if p["na"]:
        out.append("Not applicable. %s\n" % p["na"]); continue
    out.append(p["statement"] + "\n")
    out.append("*Anchored in* " + ", ".join("`%s`" % f for f in p["files"]) + ".\n")
    if p["id"] in O: out.append("*Oracle.* %s\n" % O[p["id"]])
    out.append("*Bounds.* %s\n" % p["note"])
    out.append("*Why the tests can't settle it.* %s\n" % p["why"])
    ev = {}
    try: ev = json.load(open(here + "/tools/design/costs.json"))[p["id"]]
    except Exception: pass
    rows = []
    for f in sorted(glob.glob(here + "/harness/*/%s/*.go" % p["id"].lower())):
        src = open(f).read()
        for m in re.finditer(r'((?:^//.*\n)*)^func (Check\w+)\(', src, re.M):
            doc = " ".join(l[2:].strip() for l in m.group(1).splitlines() if not l.startswith("//verif:"))
            rows.append("* `%s`%s: %s" % (m.group(2), " (thorough tier only)" if "//verif:thorough" in m.group(1) else "", doc))
    out.append("*Harnesses:*\n\n" + "\n".join(rows) + "\n")
    if ev:
        out.append("*Cost of the quick tier:* %(wall).0f s, %(paths)d paths, %(decisions)d decisions, %(queries)d queries to the solver, %(functions)d functions encoded.\n" % ev)
tail = open(D + "tail.md").read()
defects = []
for l in open(here + "/KNOWN_FINDINGS.txt"):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m: defects.append("* %s, repaired in %s: %s." % m.groups())
    m = re.match(r'finding: property=(\S+) harness=(\S+) match="[^"]*" (.*)', l)
    if m: defects.append("* %s, recorded (`%s`): %s." % m.groups())
tail = tail.replace("%DEFECTS%", "\n".join(defects))
res = json.load(open(D + "seeds.json")) if os.path.exists(D + "seeds.json") else {}
rows = ["| planted bug | property | what it breaks | result |", "|---|---|---|---|"]
for d in sorted(glob.glob(here + "/seeded/*/meta.json")):
    i = d.split("/")[-2]; m = json.load(open(d))
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"].replace("|", "\\|"), res.get(i, "")))
tail = tail.replace("%SEEDS%", "\n".join(rows)).replace("%MUTATION%", open(D + "mutation.md").read() if os.path.exists(D + "mutation.md") else "")
out.append(tail)
open(here + "/DESIGN.md", "w").write("\n".join(out))
