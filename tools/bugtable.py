"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json (caught: tools/caught.json)."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(root + '/tools/caught.json'))
rows = ['<!--bugs-->', '| bug | property | what it breaks | needs | caught by |', '|---|---|---|---|---|']
for b in sorted(os.listdir(root + '/seeded')):
    m = json.load(open(f'{root}/seeded/{b}/meta.json'))
    rows.append(f"| {b} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {', '.join(caught.get(b, [])) or 'not caught'} |")
p = root + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'<!--bugs-->.*?<!--/bugs-->', lambda _: '\n'.join(rows) + '\n<!--/bugs-->', s, flags=re.S)
open(p, 'w').write(s)
