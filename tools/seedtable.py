"""prints the table of planted bugs for DESIGN.md"""
import glob
import json
import os

base = os.path.join(os.path.dirname(__file__), '..', 'seeded')
print('| change | property (caught by its check) | needs |')
print('|---|---|---|')
for f in sorted(glob.glob(base + '/*/meta.json')):
    m = json.load(open(f))
    print(f"| {f.split('/')[-2]} | {m['property']} | {m['needs'].replace('|', '/')} |")
