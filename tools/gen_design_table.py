#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md from seeded/*/meta.json."""
import json, glob, os
print('| bug | property | needs |\n|---|---|---|')
for f in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    print(f"| {f.split('/')[-2]} | {m['property']} | {m['needs']} |")
