#!/usr/bin/env python3
"""Prints the table of seeded changes for DESIGN.md (tools/trybug.sh ID repeats each experiment)."""
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
print('| change | breaks | needs | caught by |\n|---|---|---|---|')
for d in sorted(glob.glob(f'{V}/seeded/*/meta.json')):
  m = json.load(open(d))
  print(f"| {os.path.basename(os.path.dirname(d))} | {m['what_it_breaks']} | {m['needs']} | {m['property']} |")
