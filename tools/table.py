"""rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json"""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
S = os.path.join(HERE, 'seeded')
for b in sorted(os.listdir(S), key=lambda x: int(x[1:])):
    with open(os.path.join(S, b, 'meta.json')) as f:
        m = json.load(f)
    rows.append('| %s | %s | %s | %s |' % (b, m['property'], m['what_it_breaks'], m['needs']))
p = os.path.join(HERE, 'DESIGN.md')
with open(p) as f:
    s = f.read()
head = s.split('| id | property |')[0].rstrip()
with open(p, 'w') as f:
    f.write(head + '\n\n| id | property | what it breaks | what it needs to manifest |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n')
