"""Rewrites /verif/DESIGN.md from design_head.md, design_tail.md, the properties, the registry,
the planted changes and the measured costs."""
import glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import registry
from tools.props import PROPS, NOT_BUILT


def load(name, default):
    p = os.path.join(V, "tools", name)
    return json.load(open(p)) if os.path.exists(p) else default


costs, caught = load("costs.json", {}), load("caught.json", {})
out = [open(os.path.join(V, "tools", "design_head.md")).read().rstrip(), ""]
for p in PROPS:
    i, c = p["id"], registry.CHECKS.get(p["id"])
    if c is None:
        out += ["### %s %s" % (i, p["title"]), "", "not applicable: " + NOT_BUILT.get(i, ""), ""]
        continue
    k = costs.get(i, {})
    out += ["### %s %s" % (i, p["title"]), "",
            "* spec: " + p["statement"],
            "* code: " + "; ".join("%s (%s)" % (m["where"], m["name"]) for m in p["anchors"]["mechanism"]),
            "* workload (`checks/%s.py: %s`): %s" % (c["module"], c["fn"], c["rule"]),
            "* oracle: " + c["technique"].split(": ", 1)[1]]
    if c["note"]:
        out.append("* bounds: " + c["note"])
    out.append("* reach: the quantifier is %s; %s" % (p["quantifier"]["text"], p["why_tests_cant"]))
    if c.get("require"):
        out.append("* seen at least: " + ", ".join("%s %d" % (a.replace("_", " "), n) for a, n in c["require"].items()))
    if c.get("standins"):
        out.append("* stand-ins: " + ", ".join(c["standins"]))
    if k:
        out.append("* cost: " + ", ".join("%s %d s" % (t, k[t]) for t in ("quick", "thorough") if t in k))
    out.append("")
tail = open(os.path.join(V, "tools", "design_tail.md")).read()
kf = json.load(open(os.path.join(V, "known_findings.json")))
find = ["### 3.1 List", ""] + ["* recorded: %s (%s): %s" % (f["id"], f["property"], f["what"]) for f in kf["findings"]] + ["* " + s for s in kf["fixed"]]
rows = ["| change | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    n, m = os.path.basename(os.path.dirname(f)), json.load(open(f))
    rows.append("| %s | %s | %s | %s | %s |" % (n, m["property"], m["what_it_breaks"], m["needs"], ", ".join(caught.get(n, [])) or "?"))
mut = os.path.join(V, "tools", "design_mutation.md")
tail = tail.replace("FINDINGS", "\n".join(find)).replace("PLANTED", "\n".join(rows)).replace(
    "MUTATION", open(mut).read().rstrip() if os.path.exists(mut) else "")
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out) + "\n" + tail)
