#!/usr/bin/env python3
"""Rewrite the planted-bugs table of DESIGN.md from seeded/*/meta.json (between the two markers)."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
late = {
 'F04-wide-float': 'missed at first: floats were multiples of 1/4; the generator now draws wide floats',
 'F04-device-zero': 'caught late in the run (index 622)',
 'F09-resonance': 'missed at first: the rule was broken only with all three frequencies given; each pair is now compared with and without the third',
 'S01-colliding-ids': 'needs both explicit and unset effect ids',
}
rows = ['| bug | caught by | needs | note |', '|---|---|---|---|']
for m in sorted(glob.glob(here + '/seeded/*/meta.json')):
    d = json.load(open(m)); i = os.path.basename(os.path.dirname(m))
    rows.append('| %s | %s | %s | %s |' % (i, d['property'], d['needs'], d.get('note', late.get(i, ''))))
p = here + '/DESIGN.md'; t = open(p).read()
t = re.sub(r'<!-- bugs -->.*?<!-- /bugs -->|@TABLE@', lambda _: '<!-- bugs -->\n' + '\n'.join(rows) + '\n<!-- /bugs -->', t, flags=re.S)
open(p, 'w').write(t)
