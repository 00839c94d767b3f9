#!/usr/bin/env python3
"""Rewrites the planted-bug table of DESIGN.md from seeded/*/meta.json (optional key 'caught_by', 'first_missed')."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N = json.load(open(f"{V}/tools/seed_notes.json"))
rows = ["| bug | property | breaks | caught by |", "|----|----|----|----|"]
for d in sorted(glob.glob(f"{V}/seeded/*/")):
    i = os.path.basename(d[:-1]); m = json.load(open(d + "meta.json")); n = N.get(i, {})
    rows.append(f"| {i} | {m['property']} | {m['what_it_breaks'].strip()} | {n.get('by', '?')}{'; first missed: ' + n['missed'] if 'missed' in n else ''} |")
t = open(f"{V}/DESIGN.md").read()
a, b = "<!-- seeds -->\n", "<!-- end seeds -->"
t = t[:t.index(a) + len(a)] + "\n".join(rows) + "\n" + t[t.index(b):]
open(f"{V}/DESIGN.md", "w").write(t)
