#!/usr/bin/env python3
"""vacuity.py traces [N] [PROP...]   corrupt one observed value of a recorded history at a time;
                                     the specification has to reject the history
   vacuity.py specs [N] [MODULE...]  change one place of a design-level module at a time;
                                     its invariants have to notice
Not a check of the library: it tells whether the machinery can say no.
What is not rejected is printed, to be read.
"""
import copy, json, os, random, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check, design

INPUT = {'op', 'h', 'a', 'b', 'c', 't', 'u', 'id', 's', 'x', 'lab', 'lid', 'w', 'dir', 'nm', 'em', 'edges', 'how', 'own', 'p',
         'k', 'step', 'items', 'kind', 'n', 'm', 'bad', 'nl', 'el', 'form', 'pn', 'pe', 'sep', 'len', 'hasn', 'nrows', 'erows',
         'nfirst', 'efirst', 'flex', 'headers', 'files', 'type', 'width', 'data', 'start', 'pre', 'pend', 'rn', 'rl', 're',
         'need', 'cap', 'whole', 'name', 'idx', 'what', 'hs', 'who', 'labels', 'ins', 'sentinel', 'xs', 'file', 'cut', 'size', 'im'}
OUTPUT_OF = {'obs': None, 'vectors': {'off', 'edg', 'el', 'nl', 'ioff', 'iedg', 'same'}, 'tb_obs': None, 'cc_q': None,
             'reset': set(), 'pos': {'q'}, 'new': set(), 'bulk': set(), 'csr': set(), 'tb_new': set(), 'ask_vec': {'refused'},
             'ask_sep': {'refused'}, 'ask_static': {'refused'}, 'crash': set(), 'refine': set(), 'shrink': set(),
             't_new': set(), 'tb_clear': set()}
NEVER = {'op', 'h', 'own', 'c', 'a', 'b', 'k'}


def outputs(e):
    o = OUTPUT_OF.get(e['op'], ())
    if o is None:
        return [k for k in e if k not in NEVER]
    if o != ():
        return [k for k in e if k in o]
    return [k for k in e if k not in INPUT]


def leaves(x, path):
    if isinstance(x, list):
        yield path
        for i, y in enumerate(x):
            yield from leaves(y, path + [i])
    elif isinstance(x, dict):
        for k, y in x.items():
            yield from leaves(y, path + [k])
    else:
        yield path


def change(x, rng):
    if isinstance(x, bool):
        return not x
    if isinstance(x, int):
        return x + rng.choice([1, -1, 7])
    if isinstance(x, str):
        return x + 'q' if rng.random() < .5 or not x else x[:-1]
    y = list(x)
    if len(y) == 1:
        return []
    kinds = {type(z) for z in y}
    if len(kinds) > 1 or kinds == {bool}:
        # not a list but a tuple: one of its fields
        i = rng.randrange(len(y))
        y[i] = change(y[i], rng)
        return y
    how = rng.choice(['drop', 'dup', 'swap'])
    if how == 'swap' and len(y) > 1:
        i, j = rng.sample(range(len(y)), 2)
        y[i], y[j] = y[j], y[i]
    elif how == 'drop' and y:
        del y[rng.randrange(len(y))]
    elif y:
        y.insert(rng.randrange(len(y) + 1), copy.deepcopy(rng.choice(y)))
    return y


def traces(n, props):
    check.build()
    binary = os.path.join(check.TARGET, 'debug', 'vharness')
    root = tempfile.mkdtemp(prefix='vacuity-', dir='/tmp')

    def one(prop):
        work = os.path.join(root, prop)
        os.makedirs(work)
        trace, _ = check.harness(binary, prop, 'quick', 1, work, 0, 8, None, 600)
        hist, cur = [], None
        for line in open(trace):
            e = json.loads(line)
            if e['op'] == 'reset':
                cur = []
                hist.append(cur)
            cur.append(e)
        hist = [h for h in hist if len(json.dumps(h)) < 60000]
        rng = random.Random(prop)
        made = []
        # every kind of event gets its turn
        kinds = sorted({e['op'] for h in hist for e in h if outputs(e)})
        for turn in range(4 * n):
            if len(made) == n:
                break
            k = kinds[turn % len(kinds)]
            h = rng.choice([h for h in hist if any(e['op'] == k and outputs(e) for e in h)])
            only = [dict(e) for e in h]
            last = rng.choice([i for i, e in enumerate(h) if e['op'] == k and outputs(e)])
            c = corrupt_at(only, last, rng)
            if c:
                made.append(c)
        # replay, going on behind what stops TLC
        left, missed = made, []
        while left:
            t = os.path.join(work, 'c.ndjson')
            ends, at = [], 0
            with open(t, 'w') as f:
                for ev, _ in left:
                    for e in ev:
                        f.write(json.dumps(e, separators=(',', ':')) + '\n')
                    at += len(ev)
                    ends.append(at)
            r = check.validate(work, 'ALL', 0, t, 900)
            shutil.rmtree(os.path.join(work, 'md0'), ignore_errors=True)
            stop = [l for l, c in r['fails'] if c == ['no-step']]
            bad = {next(i for i, e in enumerate(ends) if l <= e) for l, c in r['fails']}
            upto = (next(i for i, e in enumerate(ends) if stop[0] <= e) + 1) if stop else len(left)
            missed += [left[i][1] for i in range(upto) if i not in bad]
            left = left[upto:]
        return prop, len(made), missed

    def corrupt_at(h, i, rng):
        for _ in range(30):
            k = rng.choice(outputs(h[i]))
            p = rng.choice(list(leaves(h[i][k], [k])))
            new = copy.deepcopy(h[:i + 1])
            at = new[i]
            for q in p[:-1]:
                at = at[q]
            old = at[p[-1]]
            at[p[-1]] = change(old, rng)
            if json.dumps(at[p[-1]]) != json.dumps(old):
                return new, (h[i]['op'], '.'.join(map(str, p)), old, at[p[-1]])
        return None

    total = bad = 0
    with ThreadPoolExecutor(max_workers=6) as ex:
        for prop, k, missed in ex.map(one, props):
            total += k
            bad += len(missed)
            print('%s: %d of %d corrupted histories rejected' % (prop, k - len(missed), k), flush=True)
            for x in missed:
                print('    accepted: %s %s: %s -> %s' % (x[0], x[1], json.dumps(x[2])[:90], json.dumps(x[3])[:90]))
    print('%d of %d corrupted histories rejected' % (total - bad, total))
    shutil.rmtree(root, ignore_errors=True)


OPS = [(r'\\cup\b', r'\\cap'), (r'\\cap\b', r'\\cup'), (r' \\ ', r' \\cup '), (r'\bTRUE\b', 'FALSE'), (r'\bFALSE\b', 'TRUE'),
       (r' = ', ' # '), (r' # ', ' = '), (r'\+ 1\b', '+ 2'), (r'\+ 1\b', '+ 0'), (r'- 1\b', '- 0'), (r'\\in\b', r'\\notin'),
       (r'\\notin\b', r'\\in'), (r'/\\', r'\\/'), (r'\\A\b', r'\\E'), (r'\\E\b', r'\\A'), (r' < ', ' <= '), (r' <= ', ' < '),
       (r' > ', ' >= '), (r' >= ', ' > '), (r'~', ''), (r'\b0\b', '1'), (r'\b1\b', '0'), (r'IF ', 'IF ~('),
       (r'\[1\]', '[2]'), (r'\[2\]', '[1]'), (r'\bNone\b', 'Some(0)'), (r'@ ', '')]


def specs(n, modules):
    root = tempfile.mkdtemp(prefix='vacuity-', dir='/tmp')
    cfgs = {}
    for p in range(1, 29):
        for c in design.models('C%02d' % p, False):
            cfgs.setdefault(c['module'], {})[c['name']] = c
    todo = []
    for mod in modules or sorted(cfgs):
        text = open(os.path.join(check.SPEC, mod + '.tla')).read()
        lines = text.split('\n')
        # what the invariants and properties are called: their bodies stay as they are
        keep = set(re.findall(r'\w+', ' '.join(design.TEMPLATES[mod][2:])))
        # definitions are told apart by their heads at the left margin
        heads, cur = [], ''
        for l in lines:
            m = re.match(r'(\w+)(\([^=]*\))?\s*==', l)
            if m:
                cur = m.group(1)
            heads.append(cur)
        cand, comment = [], False
        for i, l in enumerate(lines):
            if '(*' in l and '*)' not in l:
                comment = True
            if comment:
                comment = '*)' not in l
                continue
            if not heads[i] or heads[i] in keep or l.strip().startswith('\\*') or l.strip().startswith('(*'):
                continue
            code = l.split('\\*')[0]
            for a, b in OPS:
                for m in re.finditer(a, code):
                    if a == '/\\\\' and code[:m.start()].strip() == '':
                        continue
                    new = code[:m.start()] + m.expand(b) + code[m.end():]
                    if b.startswith('IF ~('):
                        if ' THEN' not in code[m.end():]:
                            continue
                        new = code[:m.end()] + '~(' + code[m.end():].replace(' THEN', ') THEN', 1)
                    cand.append((i, new))
        rng = random.Random(mod)
        rng.shuffle(cand)
        for j, (i, new) in enumerate(cand[:n]):
            todo.append((mod, j, i, lines, new, heads[i]))

    def one(x):
        mod, j, i, lines, new, head = x
        d = os.path.join(root, '%s-%d' % (mod, j))
        shutil.copytree(check.SPEC, d)
        with open(os.path.join(d, mod + '.tla'), 'w') as f:
            f.write('\n'.join(lines[:i] + [new] + lines[i + 1:]))
        res = 'survived'
        for c in cfgs[mod].values():
            with open(os.path.join(d, 'M.cfg'), 'w') as f:
                f.write(c['cfg'])
            try:
                rc, out = check.java(['tlc2.TLC', '-workers', '2', '-metadir', os.path.join(d, 'md'), '-noGenerateSpecTE',
                                      '-config', os.path.join(d, 'M.cfg'), os.path.join(d, mod + '.tla')], dict(os.environ), d, 120, '2g')
            except check.ToolError:
                res = 'endless'
                break
            shutil.rmtree(os.path.join(d, 'md'), ignore_errors=True)
            if 'No error has been found' not in out:
                if 'is violated' in out or 'are violated' in out or 'was violated' in out:
                    res = 'violated'
                elif 'Semantic errors:' in out or 'Could not parse' in out or '***Parse Error***' in out:
                    res = 'nonsense'
                else:
                    res = 'error'
                break
        shutil.rmtree(d, ignore_errors=True)
        return mod, i, lines[i].strip(), new.strip(), head, res

    count = {}
    with ThreadPoolExecutor(max_workers=4) as ex:
        for mod, i, old, new, head, res in ex.map(one, todo):
            count.setdefault(mod, {}).setdefault(res, 0)
            count[mod][res] += 1
            if res == 'survived':
                print('%s:%d (%s)\n  - %s\n  + %s' % (mod, i + 1, head, old, new), flush=True)
    for mod, c in count.items():
        print(mod, c)
    shutil.rmtree(root, ignore_errors=True)


if __name__ == '__main__':
    what = sys.argv[1]
    n = int(sys.argv[2]) if len(sys.argv) > 2 else 60
    if what == 'traces':
        traces(n, sys.argv[3:] or ['C%02d' % i for i in range(1, 29)])
    else:
        specs(n, sys.argv[3:])
