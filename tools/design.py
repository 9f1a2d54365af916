"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, glob, re, os
rows = ['| bug | property | what it breaks | needs | caught by |', '|---|---|---|---|---|']
for p in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m = json.load(open(p)); i = os.path.basename(os.path.dirname(p))
    rows.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {m.get('caught_by', m['property'])} |")
p = '/verif/DESIGN.md'; s = open(p).read()
s = re.sub(r'<!-- bugs -->.*?<!-- /bugs -->', lambda _: '<!-- bugs -->\n' + '\n'.join(rows) + '\n<!-- /bugs -->', s, flags=re.S)
open(p, 'w').write(s)
