#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md from seeded/*/meta.json and tools/caught.json."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c = json.load(open(os.path.join(H, 'tools', 'caught.json')))
print('| bug | needs | breaks | caught by |\n|---|---|---|---|')
for d in sorted(os.listdir(os.path.join(H, 'seeded'))):
    m = json.load(open(os.path.join(H, 'seeded', d, 'meta.json')))
    print(f"| {d} | {m['needs']} | {m['what_it_breaks']} | {c.get(d, 'not run')} |")
