#!/usr/bin/env python3
"""table7.py SWEEP...   writes section 7 of DESIGN.md from the outputs of `plant.py sweep` (later ones win)"""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for f in sys.argv[1:]:
    for l in open(f):
        p = l.split()
        if len(p) > 3:
            cl = re.findall(r'clauses ([a-z, _0-9A-Z-]+):', l)
            sc = re.findall(r'scenario ([\w\-]+)/', l)
            res[p[0]] = (p[3], sorted(set(sc))[:3], sorted(set(x for c in cl for x in c.split(','))))
rows = []
for i in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', i, 'meta.json')))
    r = res.get(i)
    rows.append((i, m['needs'].replace('|', '/'), '%s (%s)' % (', '.join(r[1]), ', '.join(r[2])) if r and r[0] == '1' else
                 'missed' if r else 'not swept'))
n = sum(x[2] not in ('missed', 'not swept') for x in rows)
text = '''All planted bugs in `seeded/` were written from a property and the code; each
compiles, passes the stable tests and comes with a demonstration.  The last
sweeps (`bin/plant.py sweep`) ran each against the quick check of its own
property: %d of %d were caught.  The table (made by `bin/table7.py`) names
families of histories in which the specification rejected the code, and the
clauses of `Trace.tla` that failed.  What earlier sweeps missed, and what was
added for it (hubs, bulk and huge graphs, wide ids, many labels, mixtures, dense
traversals, `nr`, iterator laws, families of the generators), is in section 2 and
in the git log.

| planted bug | needs | rejected in (clauses) |
|---|---|---|
''' % (n, len(rows)) + '\n'.join('| %s | %s | %s |' % x for x in rows) + '\n'
p = os.path.join(V, 'DESIGN.md')
t = open(p).read()
a, b = '<!-- table7 -->\n', '<!-- /table7 -->\n'
i = t.index(a) + len(a)
j = t.index(b)
open(p, 'w').write(t[:i] + text + t[j:])
print(n, 'of', len(rows))
