"""Writes the table of planted bugs into DESIGN.md (between the markers)."""
import glob
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| property | planted bugs, each caught by the quick check of the '
        'property |', '|---|---|']
by = {}
for f in sorted(glob.glob(HERE + '/seeded/*/meta.json')):
    by.setdefault(json.load(open(f))['property'], []).append(
        f.split('/')[-2].split('-', 1)[1])
for p in sorted(by):
    rows.append('| %s | %s |' % (p, ', '.join(by[p])))
n = sum(map(len, by.values()))
rows.append('\n%d bugs in all.  What each breaks and needs: its `meta.json`.'
            % n)
t = open(HERE + '/DESIGN.md').read()
t = re.sub(r'(<!-- seeded -->\n).*?(<!-- end -->)',
           lambda m: m.group(1) + '\n'.join(rows) + '\n' + m.group(2), t,
           flags=re.S)
open(HERE + '/DESIGN.md', 'w').write(t)
