#!/usr/bin/env python3
"""Write DESIGN.md: tools/design_head.md, one section per property (rule text as reported by the last run of its check, and its limits), tools/design_tail.md."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from props import PROPS
from limits import LIMITS
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = os.path.join(ROOT, "tools")
out = [open(os.path.join(T, "design_head.md")).read().rstrip()]
for p in PROPS:
    if p["na"]: continue
    ev = json.load(open(os.path.join(ROOT, "evidence", p["id"] + ".json")))
    text = ev["coverage"]["explanation"]
    rule = text[len("Rules: "):text.rindex(" Decided on the resolved MIR")]
    out.append("### %s %s\n\n*Method:* %s.\n\n*Rule:* %s" % (p["id"], p["title"], p["tech"], rule))
    out.append("*Tests cannot:* %s" % p["tests"])
    out.append("*Limits:* %s" % LIMITS.get(p["id"], "none beyond the general ones above."))
out.append("## Not applicable\n")
for p in PROPS:
    if p["na"]: out.append("* **%s %s.** %s" % (p["id"], p["title"], p["na"]))
out.append(open(os.path.join(T, "design_tail.md")).read().rstrip())
# Which checks fired on each planted bug, when they were last all run against it.
fired = json.load(open(os.path.join(T, "planted.json")))
S = os.path.join(ROOT, "seeded")
rows = []
for i in sorted(os.listdir(S)) if os.path.isdir(S) else []:
    m = json.load(open(os.path.join(S, i, "meta.json")))
    rows.append("* `%s` (%s): %s. Caught by %s." % (i, m["property"], m["what_it_breaks"].rstrip("."), ", ".join(fired.get(i, [])) or "nothing"))
out[-1] += "\n\n" + "\n".join(rows)
open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n\n".join(out) + "\n")
