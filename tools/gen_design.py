#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from tools/design_text.md, properties.jsonl, evidence/ and seeded/."""
import json, os, glob
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rd = lambda p: open(os.path.join(V, p)).read()
EXTRA = json.load(open(os.path.join(V, "tools/design_extra.json")))
out = []
for l in rd("properties.jsonl").splitlines():
    p = json.loads(l); i = p["id"]; e = json.loads(rd(f"evidence/{i}.json")); c = e["coverage"]
    out.append(f"### {i} {p['title']}\n")
    out.append(f"*Explored and judged*: {c['rule']}.\n")
    if EXTRA["oracle"].get(i): out.append(f"*Oracle and method*: {EXTRA['oracle'][i]}\n")
    out.append("*Bounds*:\n" + "\n".join(f"- {k}: {v}" for k, v in sorted(c["bounds"].items()) if k not in ("vocabulary", "combinations", "edits")))
    sh = [k for k in ("vocabulary", "combinations") if k in c["bounds"]]
    if sh: out.append("- shared parts: " + ", ".join(sh))
    out.append(f"\n*Cost* (quick): {c['items_in_space']:,} items, {c['states']:,} states, {c['transitions']:,} transitions, {c['traces_validated_against_impl']:,} traces, {e['wall_s']:.0f} s plus the build."
               + (f" Thorough: {EXTRA['thorough'][i]}." if EXTRA["thorough"].get(i) else ""))
    out.append(f"\n*Beyond the tests*: {p['why_tests_cant']}\n")
rows = ["| planted bug | property | what it needs | at first | strengthened by |", "|---|---|---|---|---|"]
n = m = 0
for d in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))):
    i = os.path.basename(os.path.dirname(d)); j = json.load(open(d)); n += 1
    fix = EXTRA["missed"].get(i)
    m += bool(fix)
    rows.append("| %s | %s | %s | %s | %s |" % (i, j["property"], j["needs"].replace("|", "/"), "missed" if fix else "caught", fix or ""))
s = rd("tools/design_text.md").replace("@@CHECKS@@", "\n".join(out)).replace("@@SEEDED@@", f"{n} bugs, {m} of them missed at first.\n\n" + "\n".join(rows))
open(os.path.join(V, "DESIGN.md"), "w").write(s + "\n" if not s.endswith("\n") else s)
