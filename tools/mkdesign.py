#!/usr/bin/env python3
"""writes DESIGN.md: the prose below plus tables generated from the harness registry, properties.jsonl and seeded/"""
import glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import sx.h as h
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
known = []
for l in open(os.path.join(V, "known_findings.txt")):
    if l.startswith("fixed: property="):
        pid, commit, what = l[len("fixed: property="):].strip().split(" ", 2)
        known.append({"property": pid, "commit": commit, "what": what, "status": "fixed"})
seeds = {}
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    seeds.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(f)), m))

NOTES = {}
exec(open(os.path.join(V, "tools", "design_notes.py")).read())
out = [INTRO.strip(), ""]
out += ["## Properties", "", "`q`/`t` = number of tasks (separate symbolic executions) of the harness in the quick/thorough tier.", ""]
for p in props:
    i = p["id"]
    out += [f"### {i} - {p['title']}", "", NOTES[i].strip(), "", "| harness | q | t | bounds |", "|---|---|---|---|"]
    for n, x in h.load(i.lower()).items():
        out.append(f"| {n} | {len(list(x.cfgs('quick')))} | {len(list(x.cfgs('thorough')))} | {x.bounds.replace('|', chr(92)+'|')} |")
    out.append("")
    fx = [k for k in known if k["property"] == i]
    if fx:
        out += ["Defects of the pinned commit found by this check: " + "; ".join(f"{k['what']} ({k['status']}{' ' + k['commit'] if k.get('commit') else ''})" for k in fx) + ".", ""]
    if i in seeds:
        out += ["Planted bugs (all caught by this check unless noted): " + "; ".join(f"`{n}`" + (f" ({m['note']})" if m.get("note") else "") for n, m in seeds[i]) + ".", ""]
out += [OUTRO.strip(), ""]
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))
print(len(out), "lines")
