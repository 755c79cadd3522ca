#!/usr/bin/env python3
"""Rewrites the lists of repairs and planted bugs in DESIGN.md (between the marker comments)."""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# what was extended after the bug was missed at first
EXTENDED = {
 "v11-nested-id-from-document": "missed at first: V11 got ids nested in ids",
 "v25-sixteen-reports": "missed at first: V25 got many faults at once",
 "v04-distinct-from-recent-items": "missed at first: V04 got large arrays of distinct items",
 "v04-contains-through-reference": "missed at first: V04 got contains next to items at every place",
 "v09-nested-ifs-replace": "missed at first: V09 got nested groups of conditions",
 "v21-schema-on-a-pipe-only": "missed at first: V21 hands schemas over as a redirected file as well",
 "v19-class-past-the-thousandth": "missed at first: V19 got large classes",
 "v07-tuples-of-different-length": "missed at first: V07 got tuples in the pairs",
 "v10-tuple-implies-nothing": "missed at first: V10 got implying keywords in more places",
 "v02-negative-duration": "missed at first: V02 reads formats itself",
 "v02-sixteen-sentences": "missed at first: V02 got minimum lengths beyond the sentences drawn",
}
fs = json.load(open(f"{ROOT}/known_findings.json"))["findings"]
fixed = sorted((f for f in fs if f["status"] == "fixed"), key=lambda f: f["property"])
reps = "".join(f"* {f['property']} {f['commit']}: {f['what']}\n" for f in fixed)
bugs = "| bug | needs | check |\n|---|---|---|\n"
for b in sorted(os.listdir(f"{ROOT}/seeded")):
    m = json.load(open(f"{ROOT}/seeded/{b}/meta.json"))
    needs = re.sub(r"\s+", " ", m["needs"] if isinstance(m["needs"], str) else "; ".join(m["needs"])).replace("|", "\\|")
    bugs += f"| {b} | {needs[:230]} | {m['property']}{'; ' + EXTENDED[b] if b in EXTENDED else ''} |\n"
t = open(f"{ROOT}/DESIGN.md").read()
def put(name, text):
    global t
    t = re.sub(rf"(<!-- {name} -->\n).*?(<!-- end -->)", lambda m: m.group(1) + text + m.group(2), t, flags=re.S)
t = re.sub(r"^\d+( `fix:` commits in /repo, each)", rf"{len({f['commit'] for f in fixed})}\1", t, flags=re.M)
put("repairs", reps); put("bugs", bugs)
open(f"{ROOT}/DESIGN.md", "w").write(t)
