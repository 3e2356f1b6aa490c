"""Rewrites the table of planted bugs in DESIGN.md (section 4) from seeded/*/meta.json.
A bug is caught by the check of its property, unless tools/missed.txt lists it."""
import json, os, re
D = '/verif/DESIGN.md'
missed = set(l.split()[0] for l in open('/verif/tools/missed.txt') if l.strip()) if os.path.exists('/verif/tools/missed.txt') else set()
rows = ['| planted bug | caught by | what breaks |', '|---|---|---|']
for d in sorted(os.listdir('/verif/seeded')):
    m = json.load(open(f'/verif/seeded/{d}/meta.json'))
    w = m['what_it_breaks'].replace('|', '/').replace('\n', ' ')
    rows.append(f"| {d} | {'none' if d in missed else m['property']} | {w} |")
s = open(D).read()
t = '\n'.join(rows)
if 'SEEDTABLE' in s:
    s = s.replace('SEEDTABLE', '<!-- table -->\n' + t + '\n<!-- end -->')
else:
    s = re.sub(r'<!-- table -->.*?<!-- end -->', lambda _: '<!-- table -->\n' + t + '\n<!-- end -->', s, flags=re.S)
open(D, 'w').write(s)
