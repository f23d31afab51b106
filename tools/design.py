#!/usr/bin/env python3
"""Regenerates the tables of DESIGN.md from the harness headers, props_data.py and known_findings.json."""
import json, os, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
import props
def cfg(p):
    return json.loads(re.search(r"/\*FS (\{.*?\}) \*/", open(os.path.join(HERE, "harness", p + ".cpp")).read(), re.S).group(1))
out = [open(os.path.join(HERE, "DESIGN.md")).read().split("## Properties\n")[0] + "## Properties\n"]
for p in props.P:
    out.append("### %s %s\n" % (p["id"], p["title"]))
    if p["id"] in props.NA:
        out.append("Not applicable: %s\n" % props.NA[p["id"]]); continue
    c = cfg(p["id"])
    src = open(os.path.join(HERE, "harness", p["id"] + ".cpp")).read()
    hs = re.findall(r"^(?:FS_HARNESS|HARNESS_\w+)\((\w+)", src, re.M)
    out.append("Harnesses: %s. Budget quick %ss, thorough %ss. Deciding step: solver verdict on every assertion of every path." % (", ".join(hs), c.get("quick_s"), c.get("thorough_s")))
    if p["_note"]: out.append(p["_note"])
    out.append("\nBounds:\n" + "\n".join("* " + b for b in c.get("bounds", [])))
    if c.get("outside"): out.append("\nOutside: " + "; ".join(c["outside"]) + ".")
    if c.get("assumptions"): out.append("\nAssumptions: " + "; ".join(c["assumptions"]) + ".")
    out.append("\nBeyond the tests: " + p["why_tests_cant"] + "\n")
out.append("## Findings\n")
for e in json.load(open(os.path.join(HERE, "known_findings.json"))):
    out.append("* %s %s: %s" % (e["status"], e["property"], e["description"] if e["status"] == "known" else e["fixed"]))
sd = os.path.join(HERE, "seeded")
out.append("\n## Planted changes\n\nConfirmed with `tools/seed.py` (builds, 30 tests pass, demonstration fails) and run against the check of the property.\n")
out.append("| change | property | needs | caught by |\n|---|---|---|---|")
cr = json.load(open(os.path.join(HERE, "tools", "caught.json"))) if os.path.exists(os.path.join(HERE, "tools", "caught.json")) else {}
for d in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.load(open(os.path.join(sd, d, "meta.json")))
    out.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"], cr.get(d, "?")))
extra = os.path.join(HERE, "tools", "design_tail.md")
if os.path.exists(extra): out.append("\n" + open(extra).read())
open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out) + "\n")
