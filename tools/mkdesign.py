"""DESIGN.md from the parts written by hand, the properties, the harness bounds and the planted bugs."""
import os, sys, json, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, "tools")]
import config, props
cost = json.load(open(V + "/tools/costs.json"))
o = [open(V + "/tools/design_parts.md").read(), "## Per property\n"]
for p in props.PROPS:
    c = config.PROPS[p["id"]]
    o.append("### %s %s\n" % (p["id"], p["title"]))
    o.append("Decided by: %s. Quick run: about %s s.\n" % (c["explanation"].rstrip("."), cost.get(p["id"], "?")))
    o.append("Why the tests cannot: %s\n" % p["why"])
    for h in c["harnesses"]:
        o.append("* `%s`: %s" % (h["fn"], h["bound"]))
    for a in c.get("assumptions", []):
        o.append("* outside: %s" % a)
    o.append("")
o.append(open(V + "/tools/design_tail.md").read())
o.append("| bug | check that reports it | needs |\n|---|---|---|")
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d))
    o.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m.get("caught_by", m["property"]), m["needs"]))
o.append("")
open(V + "/DESIGN.md", "w").write("\n".join(o))
