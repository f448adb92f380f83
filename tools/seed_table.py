"""Rewrite the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os
import re

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['<!-- seeds -->', '| change | caught by | what it breaks |',
        '|---|---|---|']
for f in sorted(glob.glob(H + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append('| %s | %s | %s (needs: %s) |' % (
        os.path.basename(os.path.dirname(f)), m['property'],
        m['what_it_breaks'], m['needs']))
rows.append('<!-- /seeds -->')
t = '\n'.join(rows)
p = H + '/DESIGN.md'
s = open(p).read()
s = s.replace('SEEDTABLE', '<!-- seeds --><!-- /seeds -->')
s = re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda _: t, s, flags=re.S)
open(p, 'w').write(s)
