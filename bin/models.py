#!/usr/bin/env python3
"""models.py quick|thorough [PROP...]

Development tool: every design-level model and tour once, with the time it takes.
Quick models are compared with spec/STATES.json: a model that has become much
smaller than it was says less than it did (an initial condition or an action
that can no longer happen makes every invariant true).  --learn rewrites the file.
"""
import json, os, shutil, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check, design
from concurrent.futures import ThreadPoolExecutor
args = [x for x in sys.argv[1:] if x != '--learn']
learn = '--learn' in sys.argv
thorough = args[0] == 'thorough'
props = args[1:] or ['C%02d' % i for i in range(1, 29)]
LEDGER = os.path.join(check.SPEC, 'STATES.json')
known = json.load(open(LEDGER)) if os.path.exists(LEDGER) else {}
seen = {}
for p in props:
    for c in design.models(p, thorough) + design.schedules(p, thorough):
        seen.setdefault(c['name'], c)
w = tempfile.mkdtemp(prefix='models-', dir='/tmp')
bad = []


def go(c):
    t = time.time()
    name = c['name']
    try:
        r = check.tlc_design(w, c, 1 if name.startswith('tour') else (8 if thorough else 2), 3000)
        out = '%s %d %d' % r[:3]
        if name.startswith('tour'):
            ls = design.tour(c, r[3], 1)
            out += ' walks %d ops %d' % (len(ls), sum(len(x.split()) for x in ls))
        if learn:
            known[name] = r[2]
        elif name in known and r[2] < known[name] * 9 // 10:
            bad.append(name)
            out += ' SHRUNK from %d' % known[name]
    except Exception as e:
        bad.append(name)
        out = 'FAIL %s %s' % (name, e)
    print('%6.1f %s' % (time.time() - t, out), flush=True)


with ThreadPoolExecutor(max_workers=1 if thorough else 3) as ex:
    list(ex.map(go, seen.values()))
shutil.rmtree(w)
if learn:
    json.dump(known, open(LEDGER, 'w'), indent=1, sort_keys=True)
sys.exit(1 if bad else 0)
