"""Writes the tables of harnesses and bounds, and of planted bugs, into DESIGN.md."""
import json, os, re, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(V, "tools"))
from plan import PLAN
titles = {p["id"]: p["title"] for p in map(json.loads, open(os.path.join(V, "properties.jsonl")))}
def key(j): return (j["h"], tuple(j["p"]), j.get("as"))
out = []
for c in sorted(PLAN):
    q = PLAN[c]["quick"]; t = [j for j in PLAN[c].get("thorough", []) if key(j) not in {key(x) for x in q}]
    out.append("**%s - %s**\n" % (c, titles[c]))
    for j in q: out.append("- `%s`%s %s" % (j["h"][5:], " (fallback)" if j.get("fallback") else "", j["bound"]))
    if t: out.append("- also thorough:")
    for j in t: out.append("  - `%s`%s %s" % (j["h"][5:], " (fallback)" if j.get("fallback") else "", j["bound"]))
    out.append("")
bugs = ["| planted bug | needs | caught by |", "|---|---|---|"]
caught = json.load(open(os.path.join(V, "tools", "caught.json"))) if os.path.exists(os.path.join(V, "tools", "caught.json")) else {}
for b in sorted(os.listdir(os.path.join(V, "seeded"))) if os.path.isdir(os.path.join(V, "seeded")) else []:
    m = json.load(open(os.path.join(V, "seeded", b, "meta.json")))
    bugs.append("| %s | %s | %s |" % (b, m["needs"].replace("|", "\\|"), caught.get(b, "?")))
p = os.path.join(V, "DESIGN.md"); s = open(p).read()
for n, l in (("bounds", out), ("bugs", bugs)):
    s = re.sub(r"(?s)(<!-- %s -->).*?(<!-- /%s -->)" % (n, n), lambda m: m.group(1) + "\n" + "\n".join(l) + "\n" + m.group(2), s)
open(p, "w").write(s)
