"""Prints the table of planted changes for DESIGN.md."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = os.path.join(HERE, 'seeded')
print('| change | what it breaks | caught by |\n|---|---|---|')
for i in sorted(os.listdir(d)):
  m = json.load(open(os.path.join(d, i, 'meta.json')))
  print(f'| {i} | {m["what_it_breaks"]} | {m["property"]} quick |')
