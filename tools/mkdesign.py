#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from the text here, properties.jsonl, config.py, the suites in checks/, known_findings.txt and seeded/."""
import glob, json, os, re, sys
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE); sys.path.insert(0, HERE)
from config import CHECKS
HEAD = open(HERE + "/design_head.md").read()
D = {}
for part in re.split(r"^## ", open(HERE + "/design_checks.md").read(), flags=re.M)[1:]:
    i, t = part.split("\n", 1); D[i.strip()] = t.strip()
o = [HEAD.rstrip(), "", "## The properties", ""]
for l in open(V + "/properties.jsonl"):
    p = json.loads(l); i = p["id"]; c = CHECKS[i]
    o += [f"### {i} {p['title']}", "", f"*{c['technique']}*", "", D[i], "", f"Bounds: {c['note']}", ""]
    for f in sorted(glob.glob(f"{V}/checks/{i.lower()}*.cpp")):
        for n, q, t in re.findall(r'suite\("(\w+)", \w+, (\d+), (\d+)', open(f).read()):
            o.append(f"- suite `{n}`: {int(q):,} cases in quick, up to {int(t):,} in thorough" .replace(",", " "))
    for x in c["parts"]:
        if x.get("prefix"):
            o.append(f"- all of these again (a third as many) in the {x['prefix']} build")
    o.append("")
o += ["## Planted bugs", "", "Each is in `seeded/<id>/`; all were confirmed with `tools/plant.sh` (the stable tests pass with it, its demonstration fails with it and passes without it).", "", "| id | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    o.append(f"| {i} | {m['property']} | {m['needs']} | {m.get('caught', m['property'])} |")
o += ["", "## Genuine defects", "", "Found by the checks on the original tree (180a412). Each was shown against the real code by a generated case. Repaired ones, one `fix:` commit each:", ""]
kf = [l.strip() for l in open(V + "/known_findings.txt") if l.strip()]
for l in kf:
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m: o.append(f"- {m.group(1)} `{m.group(2)}` {m.group(3)}")
o += ["", "Recorded, not repaired:", ""]
for l in kf:
    m = re.match(r"known: property=(\S+) id=(\S+) (.*)", l)
    if m: o.append(f"- {m.group(1)} `{m.group(2)}`: {m.group(3)}")
o += ["", open(HERE + "/design_tail.md").read().strip(), ""]
open(V + "/DESIGN.md", "w").write("\n".join(o))
