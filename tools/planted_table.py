#!/usr/bin/env python3
"""Prints the table of planted bugs (seeded/*/meta.json) by property for DESIGN.md."""
import json, os, collections
d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded')
t = collections.defaultdict(list)
for i in sorted(os.listdir(d)):
    t[json.load(open(f'{d}/{i}/meta.json'))['property']].append(i)
print('| check | changes it catches |\n|---|---|')
for k in sorted(t):
    print(f'| {k} | {", ".join(t[k])} |')
