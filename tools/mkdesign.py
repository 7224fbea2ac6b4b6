#!/usr/bin/env python3
# DESIGN.md from tools/design, properties.jsonl, harness/specs.py, KNOWN_FINDINGS and seeded/.
import glob, json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [H + "/harness", H + "/tools/design"]
import notes, specs
R = lambda f: open(H + "/tools/design/" + f).read()
tail = R("tail.md"); i = tail.index("## 9."); out = [R("head.md").rstrip(), "", "## 4. Properties", "", "Statements are in properties.jsonl, the functions actually encoded in each run in evidence/<id>.json.", ""]
for l in open(H + "/properties.jsonl"):
    p = json.loads(l); s = specs.P[p["id"]]; out += ["### %s %s" % (p["id"], p["title"]), "", notes.N[p["id"]], ""]
    out += ["- Entries: " + ", ".join(e["name"] + (" (bit-precise)" if "--fp" in e.get("opts", []) else "") + (" (thorough)" if e.get("thorough_only") else "") for e in s["entries"]), "- Bounds: " + s["bounds"]]
    if s.get("bounds_t") and s["bounds_t"] != s["bounds"]: out.append("- Thorough bounds: " + s["bounds_t"])
    if s["assumptions"]: out.append("- Assumes: " + "; ".join(s["assumptions"]))
    out.append("")
F = [l.strip()[len("fixed: property="):].split(" ", 2) for l in open(H + "/KNOWN_FINDINGS") if l.startswith("fixed:")]
out += ["## 5. Genuine defects found and repaired", "", "Each was reported by the property's check on the original tree, shown against the real code by its replay, and repaired in", "one `fix:` commit; the check reports it again if it returns.", "", "| property | commit | what failed |", "|---|---|---|"]
out += ["| %s | %s | %s |" % (a, b, c.replace("repaired: ", "").replace("|", "\\|")) for a, b, c in F]
K = [l.strip() for l in open(H + "/KNOWN_FINDINGS") if l.startswith("known:")]
out += ["", "## 6. Known findings", "", "\n".join("- " + k for k in K) if K else "None: every defect the checks reported could be repaired.", "", tail[:i].rstrip(), "", R("seeds.md").rstrip(), "", "| planted bug | caught by | what it breaks | needs |", "|---|---|---|---|"]
for f in sorted(glob.glob(H + "/seeded/*/meta.json")):
    m = json.load(open(f)); out.append("| %s | %s | %s | %s |" % (f.split("/")[-2], m["property"], m["what_it_breaks"], m["needs"]))
out += ["", tail[i:].rstrip(), ""]
open(H + "/DESIGN.md", "w").write("\n".join(out))
