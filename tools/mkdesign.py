"""DESIGN.md = tools/design.in.md + tools/design.props.md + findings + seeded changes."""
import json, os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); T = os.path.join(V, "tools")
s = open(os.path.join(T, "design.in.md")).read(); f = json.load(open(os.path.join(V, "known_findings.json")))["findings"]
o = "".join("* %s: %s\n" % (x["property"], x["what"]) for x in f if x["status"] == "known") or "* none\n"
o += "\nRepaired:\n" + "".join("* %s `%s` %s\n" % (x["property"], x["commit"], re.sub(r"^fixed: property=\S+ \S+ ", "", x["what"])) for x in f if x["status"] != "known")
r = ""
for d in sorted(os.listdir(os.path.join(V, "seeded"))) if os.path.isdir(os.path.join(V, "seeded")) else []:
    p = os.path.join(V, "seeded", d, "meta.json")
    if os.path.exists(p):
        m = json.load(open(p)); r += "* **%s** (%s): %s  Needs: %s  Caught by: %s\n" % (d, m["property"], m["what_it_breaks"], m["needs"], m.get("caught_by", "not recorded"))
for k, v in (("@@PROPS@@", open(os.path.join(T, "design.props.md")).read()), ("@@OPEN@@", o), ("@@SEEDED@@", r or "none yet\n")): s = s.replace(k, v)
open(os.path.join(V, "DESIGN.md"), "w").write(s)
