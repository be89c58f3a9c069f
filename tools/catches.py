#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json
and the results of tools/seedtest.py (lines "<id> demo a/b Cnn CAUGHT|MISSED")."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
got = {}
for f in sys.argv[1:]:
    for l in open(f, errors='replace'):
        m = re.match(r'(\S+) demo (\S+) (C\d\d) (CAUGHT|MISSED)', l)
        if m: got[m.group(1)] = m.group(4)
p = V + '/DESIGN.md'; s = open(p).read()
old = dict(re.findall(r'^\| (c\d\d-\S+) \|.*\| (\w+) \|$', s, re.M))
rows = ['| change | breaks | needs | quick check |', '|---|---|---|---|']
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(V + '/seeded/%s/meta.json' % d))
    rows.append('| %s | %s: %s | %s | %s |' % (d, m['property'], m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/'), got[d].lower() if d in got else old.get(d, 'untried')))
t = '<!-- catches -->\n' + '\n'.join(rows) + '\n<!-- end -->'
s = s.replace('@@CATCHES@@', t) if '@@CATCHES@@' in s else re.sub(r'<!-- catches -->.*<!-- end -->', lambda _: t, s, flags=re.S)
open(p, 'w').write(s)
