#!/usr/bin/env python3
"""Writes DESIGN.md: the text below, with titles from properties.jsonl, jobs and bounds from checks/jobs.py,
repaired defects from known_findings.txt and the planted changes from tools/planted.txt."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, R + "/checks"); sys.path.insert(0, R)
import jobs
HEAD = open(R + "/tools/design_head.md").read()
TEXT = {}
cur = None
for l in open(R + "/tools/design_props.md"):
    if l.startswith("## "): cur = l[3:].strip(); TEXT[cur] = ""
    elif cur: TEXT[cur] += l
out = [HEAD.rstrip(), "", "## The properties one by one", ""]
for l in open(R + "/properties.jsonl"):
    p = json.loads(l); i = p["id"]; d = jobs.PROPS.get(i)
    out += ["### %s %s" % (i, p["title"]), ""]
    out += [TEXT[i].strip(), ""]
    if d:
        q = [j for j in d["jobs"] if "quick" in j["tiers"]]
        out += ["*Bounds:* %s.  %d jobs in the quick tier, %d more in the thorough tier; harness %s." % (d["bounds"], len(q), len(d["jobs"]) - len(q), ", ".join(sorted({"`%s`" % j["src"] for j in d["jobs"]}))), ""]
        if d["assumptions"]: out += ["*Assumed:* %s." % "; ".join(d["assumptions"]), ""]
out += ["## Defects found in the unchanged tree", "",
        "All of these were reproduced natively before they were repaired; each repair is a commit of its own in the",
        "repository under test whose message starts with `fix:`.  None is left open, so `known_findings.txt` holds only the",
        "record.", "", "| Property | Commit | What failed |", "|---|---|---|"]
for l in open(R + "/known_findings.txt"):
    if l.startswith("fixed:"):
        _, p, c, *w = l.split(); out.append("| %s | %s | %s |" % (p.split("=")[1], c, " ".join(w)))
out += ["", "## Planted changes and what catches them", "", open(R + "/tools/planted_head.md").read().strip(), "", "| Change | Property | Needs | Caught by | Remark |", "|---|---|---|---|---|"]
for l in open(R + "/tools/planted.txt"):
    b, by, *rem = l.rstrip("\n").split("|")
    m = json.load(open(R + "/seeded/%s/meta.json" % b)); out.append("| %s: %s | %s | %s | %s | %s |" % (b, m["what_it_breaks"], m["property"], m["needs"], by, rem[0] if rem else ""))
out += ["", open(R + "/tools/design_tail.md").read().strip()]
open(R + "/DESIGN.md", "w").write("\n".join(out) + "\n")
