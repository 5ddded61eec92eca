#!/usr/bin/env python3
"""Refreshes the generated tables in DESIGN.md (between the marks)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = open(V + '/DESIGN.md').read()
T = json.load(open(V + '/tool/techniques.json'))
P = [json.loads(l) for l in open(V + '/properties.jsonl')]


def put(mark, text):
    global D
    b = '<!-- %s -->' % mark
    e = '<!-- /%s -->' % mark
    blk = b + '\n' + text + e + '\n'
    if b in D:
        D = D[:D.index(b)] + blk + D[D.index(e) + len(e) + 1:]
    else:
        D = D.replace('@@%s@@\n' % mark, blk)


put('NA', ''.join('* **%s %s** — %s\n' % (p['id'], p['title'], T.get(p['id'], {}).get('na') or 'no check yet') for p in P if 'technique' not in T.get(p['id'], {})))
fx = [l[7:].strip() for l in open(V + '/known_findings.txt') if l.startswith('fixed:')]
put('FIX', ''.join('* %s\n' % re.sub(r'^property=(\S+) (\S+) ', r'**\1** `\2` ', f) for f in fx))
rows = ['| change | breaks | needs | caught by |\n|---|---|---|---|\n']
for s in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, s)))
    rows.append('| %s | %s | %s | %s |\n' % (s, m['what_it_breaks'], m['needs'], m.get('caught', m['property'])))
put('SEED', ''.join(rows))
open(V + '/DESIGN.md', 'w').write(D)
