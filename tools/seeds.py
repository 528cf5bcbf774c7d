#!/usr/bin/env python3
"""Prints the table of seeded changes for DESIGN.md."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
print("| change | property | needs | caught by |\n|---|---|---|---|")
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{d}/meta.json"))
    print(f"| {d} | {m['property']} | {m['needs']} | {m.get('caught_by', m['property'])} |")
