#!/usr/bin/env python3
"""DESIGN.md from DESIGN.tmpl.md, levels.json, properties.jsonl, the oracles and seeds.json."""
import glob
import json
import os
import re

os.chdir(os.path.dirname(os.path.abspath(__file__)))
levels = json.load(open("levels.json"))
props = [json.loads(l) for l in open("properties.jsonl")]
rows = []
for p in props:
    i = p["id"]
    if i not in levels:
        continue
    src = open(f"oracle/{i.lower()}.py").read()
    bounds = "; ".join(re.findall(r'bound="([^"]*)"', src))
    targets = []
    f = f"targets/{i.lower()}.py"
    if os.path.exists(f):
        targets = re.findall(r'@target\("\w+",?\s*"?(\w*)"?', open(f).read())
    anchors = ", ".join(os.path.basename(f) for f in p["anchors"]["files"])
    lv = levels[i]
    rows.append(f"\n**{i} — {p['title']}** ({'proof' if lv.get('level') == 'proof' else 'bounded'}{', ' + lv['cost'] if 'cost' in lv else ''}).  "
                + (f"Anchored in {anchors}.  " if anchors else "")
                + ("T: " + lv["note"] + (f"  Targets: {', '.join(targets)}." if targets else "") if lv.get("level") == "proof" or targets else "T: none.")
                + f"  O: {bounds}.")
seeds = []
got = json.load(open("seeds.json")) if os.path.exists("seeds.json") else {}
seeds.append("| seed | property | needs | caught by |\n|---|---|---|---|")
for d in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(d))
    n = os.path.basename(os.path.dirname(d))
    seeds.append(f"| {n} | {m['property']} | {m['needs'].replace('|', '/')} | {got.get(n, 'O')} |")
t = open("DESIGN.tmpl.md").read()
t = re.sub(r"\| id \|.*?\n\|-+.*?\n@@TABLE@@", lambda _: "\n".join(rows), t, flags=re.S)
t = t.replace("@@SEEDS@@", "\n".join(seeds))
open("DESIGN.md", "w").write(t)
