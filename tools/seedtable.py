"""Rewrites the table of planted bugs in DESIGN.md (not run by any check)."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| planted bug | caught by | what it breaks | needs |', '|---|---|---|---|']
for i in sorted(os.listdir(root + '/seeded')):
    m = json.load(open(f'{root}/seeded/{i}/meta.json'))
    rows.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
p = root + '/DESIGN.md'
s = open(p).read()
t = '\n'.join(rows)
if '@TABLE@' in s:
    s = s.replace('@TABLE@', t)
else:
    s = re.sub(r'\| planted bug \|(.|\n)*?\n\n', lambda _: t + '\n\n', s)
open(p, 'w').write(s)
