"""Rewrites in DESIGN.md what is derived from elsewhere: the lines of bounds,
assumptions and exclusions (from the checks) and the table of planted bugs
(from seeded/*/meta.json)."""
import glob
import importlib
import json
import os
import re
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
p = os.path.join(here, 'DESIGN.md')
out, cid, skip = [], None, False
for line in open(p).read().split('\n'):
    m = re.match(r'### (C\d\d) ', line)
    if m:
        cid = m.group(1)
    elif line.startswith('## '):
        cid = None
    if cid and re.match(r'\*(Bounds|Assumed|Outside):\*', line):
        if line.startswith('*Bounds'):
            c = importlib.import_module('checks.' + cid.lower())
            out.append('*Bounds:* ' + '; '.join(
                '%s %s' % kv for kv in c.BOUNDS.items()) + '.')
            if c.ASSUMPTIONS:
                out.append('*Assumed:* ' + '; '.join(c.ASSUMPTIONS) + '.')
            if c.OUTSIDE:
                out.append('*Outside:* ' + '; '.join(c.OUTSIDE) + '.')
        continue
    out.append(line)
text = '\n'.join(out)
rows = ['| bug | property | needs | caught by |', '|---|---|---|---|']
for f in sorted(glob.glob(os.path.join(here, 'seeded/*/meta.json'))):
    d = json.load(open(f))
    name = os.path.basename(os.path.dirname(f))
    rows.append('| %s | %s | %s | %s |' % (
        name, d['property'], ' '.join(d['needs'].split()).replace('|', '/'),
        d.get('caught_by', d['property'])))
a, b = '<!-- seeds -->', '<!-- /seeds -->'
text = text.replace('@SEEDS@', a + b)
i, j = text.index(a), text.index(b)
text = text[:i] + a + '\n' + '\n'.join(rows) + '\n' + text[j:]
open(p, 'w').write(text)
