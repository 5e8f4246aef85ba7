#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_src.py (the text), properties_src.py, the evidence of the last
runs (what each part enumerates), known_findings.json and seeded/*/meta.json."""
import json, os, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import design_src as D
from properties_src import P
from registry import CHECKS, NOT_APPLICABLE
out = [D.INTRO.strip(), ""]
kf = json.load(open(os.path.join(V, "known_findings.json")))["findings"]
seeds = []
for m in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    j = json.load(open(m)); j["id"] = os.path.basename(os.path.dirname(m)); seeds.append(j)
out.append("## Properties and how each is decided\n")
for p in P:
    i = p["id"]
    out.append(f"### {i} — {p['title']}\n")
    out.append(p["statement"] + "\n")
    c = CHECKS.get(i)
    if not c:
        out.append("Not claimed: " + NOT_APPLICABLE[i] + "\n"); continue
    hs = ", ".join("`harness/%s`" % (h["src"] if isinstance(h["src"], str) else h["src"][0]) for h in c["harnesses"])
    out.append(f"*Decided by* {hs}: {c['technique']}.")
    e = os.path.join(V, "evidence", i + ".json")
    d = D.TEXT.get(i, {})
    if d.get("oracle"): out.append("*Oracle:* " + d["oracle"])
    if os.path.exists(e):
        j = json.load(open(e)); cov = j["coverage"]
        out.append(f"*Explored* (tier {j['tier']}, about {j['wall_s']:.0f} s on 8 cores; {cov['states']} states, {cov['transitions']} transitions):\n")
        for k, q in sorted(cov["parts"].items()):
            out.append(f"- {k}: {q['bounds']}" if q.get("bounds") else f"- {k}")
        out.append("")
    out.append("*Why tests cannot:* " + p["why_tests_cant"] + "\n")
    if d.get("narrow"): out.append("*Not claimed, and false alarms met:* " + d["narrow"] + "\n")
    ks = [k for k in kf if k["property"] == i and k["status"] == "open"]
    fs = [k for k in kf if k["property"] == i and k["status"] == "fixed"]
    if fs:
        out.append("*Defects repaired:*\n")
        out += ["- " + k["what"].replace(f"fixed: property={i} ", "") for k in fs]; out.append("")
    if ks:
        out.append("*Known findings (not repaired):*\n")
        out += [f"- `{k['key']}`: {k['what']}" for k in ks]; out.append("")
    ss = [s for s in seeds if s["property"] == i]
    if ss:
        out.append("*Planted bugs:*\n")
        out += [f"- `{s['id']}`: {s['what_it_breaks']} Needs: {s['needs']} — {D.SEEDS.get(s['id'], 'caught')}." for s in ss]; out.append("")
out.append(D.OUTRO.strip()); out.append("")
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))
