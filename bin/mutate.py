#!/usr/bin/env python3
"""mutate.py DIR N SEED [file-regex [rare]]

Development tool: small syntactic changes of the library, one at a time, in
scratch copies below DIR (of /repo and of /verif's committed work).  Changes
that compile and pass the stable tests are run against the checks (code level
only); those that no check rejects are listed in DIR/survivors for a human to
judge: a change that breaks a property must not be among them.  With "rare",
statements are left out and conditions turned round only at every 29th time
they are reached.
"""
import json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
DIR, N, SEED = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
PAT = sys.argv[4] if len(sys.argv) > 4 else '.'
RARE = len(sys.argv) > 5
SELDOM = ('{ static C: ::std::sync::atomic::AtomicUsize = ::std::sync::atomic::AtomicUsize::new(1); '
          'C.fetch_add(1, ::std::sync::atomic::Ordering::Relaxed) % 29 == 0 }')
REPO, VF = DIR + '/repo', DIR + '/verif'
if not os.path.isdir(REPO):
    subprocess.check_call(['cp', '-a', '/repo', REPO])
if not os.path.isdir(VF):
    subprocess.check_call(['git', 'clone', '-q', '/verif', VF])
    p = VF + '/harness/Cargo.toml'
    s = open(p).read()
    open(p, 'w').write(s.replace('"/repo"', '"%s"' % REPO))
sys.path.insert(0, VF + '/bin')
import check, design
STABLE = json.load(open('/opt/vp/BASELINE.json'))

MAP = ['C01', 'C25', 'C05', 'C02', 'C03', 'C04', 'C07', 'C26', 'C06']
DERIV = ['C10', 'C11', 'C12', 'C08', 'C09', 'C13']
REL = [
    ('algorithm/bfs', ['C17']), ('algorithm/dfs', ['C18']), ('algorithm/conn_comp', ['C19', 'C20']),
    ('algorithm/conn_sub', ['C20', 'C19']), ('algorithm/graph_union', ['C21']), ('algorithm/graph_minus', ['C22']),
    ('graph_gen', ['C24']), ('io/csv', ['C15', 'C14', 'C16']), ('io/ldbc', ['C27']),
    ('io/mmap', ['C28', 'C12', 'C16']), ('io/serde', ['C13', 'C16', 'C12']),
    ('map/', ['C06', 'C08', 'C23', 'C13', 'C21', 'C20', 'C09', 'C24', 'C05']),
    ('graph_map', MAP + ['C23', 'C08', 'C10', 'C09', 'C13', 'C20', 'C21', 'C22', 'C24']),
    ('static_graph', ['C11', 'C10', 'C04', 'C03', 'C05', 'C26', 'C12', 'C02', 'C07', 'C08', 'C09', 'C13', 'C16']),
    ('generic/', ['C01', 'C25', 'C04', 'C05', 'C11', 'C26', 'C08', 'C09', 'C03', 'C21', 'C22', 'C20', 'C06', 'C14']),
]
SWAPS = [('==', '!='), ('&&', '||'), (' < ', ' <= '), (' <= ', ' < '), (' > ', ' >= '), (' >= ', ' > '),
         ('true', 'false'), ('false', 'true'), ('is_some()', 'is_none()'), ('is_none()', 'is_some()'),
         ('start', 'target'), ('target', 'start'), ('in_neighbors', 'neighbors'), ('in_degree', 'degree'),
         ('node_label_map', 'edge_label_map'), ('edge_label_map', 'node_label_map'), ('pop_front', 'pop_back'),
         ('push_back', 'push_front'), ('.rev()', ''), ('.skip(1)', ''), (' + 1', ''), (' - 1', ''), ('+ 1', '+ 2'),
         ('[1]', '[0]'), ('is_empty()', 'is_empty() == false'), ('self.', 'other.'), ('other.', 'self.'),
         ('Some(', 'None; Some('), ('is_directed()', 'is_directed() == false'), ('.max(', '.min('), ('node_map', 'edge_map'),
         (' 0', ' 1'), (' 1', ' 0'), ('!', ''), ('unwrap_or(None)', 'unwrap()'), ('Ok(', 'Err('), ('+=', '-='), ('-=', '+='),
         ('.in_edge_vec', '.edge_vec'), ('in_edges', 'edges'), ('.clone()', ''), ('contains', '!contains'), ('if ', 'if !'),
         ('labels', 'edges'), ('.sort()', ''), ('nodes', 'edges'), ('Directed', 'Undirected'), ('Undirected', 'Directed'),
         ('num_nodes', 'num_edges'), ('num_edges', 'num_nodes'), ('usize_id', 'id'), ('&self.0', '&self.1')]


def sites():
    r = []
    for root, _, fs in os.walk(REPO + '/src'):
        for f in sorted(fs):
            p = os.path.join(root, f)
            rel = os.path.relpath(p, REPO)
            if not f.endswith('.rs') or not re.search(PAT, rel):
                continue
            for i, line in enumerate(open(p).read().split('\n')):
                t = line.strip()
                if not t or t.startswith(('//', '*', '/*', '#', 'use ', 'extern', 'pub mod', 'mod ', 'impl', 'info!', 'where', '//!')):
                    continue
                if RARE:
                    if t.endswith(';') and not t.startswith(('let', 'type', '}', 'fn', 'pub', ')', '.')):
                        r.append((rel, i, 'if !%s { %s }' % (SELDOM, t)))
                    mt = re.match(r'(\s*)((?:\} else )?if|while) (?!let)(.*) \{$', line)
                    if mt:
                        r.append((rel, i, '%s%s %s != (%s) {' % (mt.group(1), mt.group(2), SELDOM, mt.group(3))))
                    mt = re.match(r'\s*(true|false|None|[a-z_.()]+\.(is_some|is_none|is_empty|contains|has_node|has_edge)\(.*\))$', line)
                    if mt:
                        if mt.group(1) != 'None':
                            r.append((rel, i, '%s != (%s)' % (SELDOM, t)))
                    mt = re.match(r'\s*([a-z_.()]+\.(len|count|node_count|edge_count|degree|in_degree|id)\(.*\))$', line)
                    if mt:
                        r.append((rel, i, '%s as usize + (%s)' % (SELDOM, t)))
                    mt = re.match(r'(.* = )([^;{}]*[a-z_)]+);$', line)
                    if mt and not t.startswith(('let mut', 'type')):
                        for one in (" + 1", " - 1"):
                            r.append((rel, i, '%s{ let v = %s; if %s { v%s } else { v } };' % (mt.group(1), mt.group(2), SELDOM, one)))
                    continue
                for a, b in SWAPS:
                    for mt in re.finditer(re.escape(a), line):
                        if a.isalpha() and mt.end() < len(line) and (line[mt.end()].isalpha()) and a in ('start', 'target', 'true', 'false'):
                            continue
                        if a == '!' and (line[mt.end():mt.end() + 1] in '=([' or re.search(r'\w$', line[:mt.start()])):
                            continue
                        r.append((rel, i, line[:mt.start()] + b + line[mt.end():]))
                if t.endswith(';') and not t.startswith(('let', 'type', 'return', '}', 'fn', 'pub')):
                    r.append((rel, i, ''))
                mt = re.match(r'(\s*)(?:\} else )?if (?!let)(.*) \{$', line)
                if mt:
                    for v in ('true', 'false'):
                        r.append((rel, i, line.replace('if ' + mt.group(2), 'if %s && (%s)' % (v, mt.group(2)) if v == 'false' else 'if true || (%s)' % mt.group(2))))
    return r


def cargo(args, cwd, target, timeout):
    e = check.cargo_env()
    e['CARGO_TARGET_DIR'] = target
    e['CARGO_PROFILE_DEV_DEBUG'] = 'line-tables-only'
    p = subprocess.run(['timeout', '-k', '5', str(timeout), 'cargo'] + args, cwd=cwd, env=e, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, errors='replace')
    return p.returncode, p.stdout


def tests():
    rc, out = cargo(['test', '--workspace', '--no-fail-fast', '--offline', '--', '--test-threads', '8'], REPO, DIR + '/ttarget', 90)
    return set(re.findall(r'^test (.*?) \.\.\. ok$', out, re.M))


def norm(ts):
    return set(re.sub(r' \(line \d+\)', '', t) for t in ts)


def build():
    rc, out = cargo(['build', '--offline', '--quiet'], VF + '/harness', DIR + '/htarget', 600)
    return rc == 0


def run_prop(prop, scheds, seed=1):
    work = tempfile.mkdtemp(prefix=prop, dir=DIR)
    try:
        sched = None
        if scheds.get(prop):
            sched = work + '/schedules'
            open(sched, 'w').write('\n'.join(scheds[prop]) + '\n')
        binary = DIR + '/htarget/debug/vharness'
        with ThreadPoolExecutor(8) as ex:
            tr = list(ex.map(lambda i: check.harness(binary, prop, 'quick', seed, work, i, 8, sched, 300), range(8)))
            vs = list(ex.map(lambda i: check.validate(work, prop, i, tr[i][0], 300), range(8)))
        nf = sum(len(v['fails']) for v in vs)
        if prop == 'C25':
            nf -= BASEFAIL.get('C25', 0)
        return nf
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    global BASEFAIL
    BASEFAIL = {}
    rng = random.Random(SEED)
    S = sites()
    rng.shuffle(S)
    print(len(S), 'sites', flush=True)
    subprocess.check_call(['git', '-C', REPO, 'checkout', '-q', '-f', '.'])
    clean = norm(tests())
    assert build()
    scheds = {}
    props = sorted(set(p for _, ps in REL for p in ps))
    w = tempfile.mkdtemp(dir=DIR)
    done = {}
    for p in props:
        lines = []
        for c in design.schedules(p, False):
            if c['name'] not in done:
                done[c['name']] = design.tour(c, check.tlc_design(w, c, 1, 300)[3], 1)
            lines += done[c['name']]
        scheds[p] = lines
    shutil.rmtree(w)
    for p in props:
        k = run_prop(p, scheds)
        print('clean', p, k, flush=True)
        BASEFAIL[p] = k
    stat = dict(nocompile=0, tests=0, killed=0, survived=0)
    tried = 0
    for rel, i, new in S:
        if stat['killed'] + stat['survived'] >= N:
            break
        p = os.path.join(REPO, rel)
        orig = open(p).read()
        L = orig.split('\n')
        old = L[i]
        L[i] = new
        try:
            open(p, 'w').write('\n'.join(L))
            # without the test modules
            rc, out = cargo(['check', '--offline', '--quiet'], VF + '/harness', DIR + '/ctarget', 300)
            if rc:
                stat['nocompile'] += 1
                continue
            if not clean <= norm(tests()):
                stat['tests'] += 1
                continue
            if not build():
                stat['nocompile'] += 1
                continue
            t = time.time()
            hit = None
            for k, ps in REL:
                if k in rel:
                    for prop in ps:
                        try:
                            if run_prop(prop, scheds) > 0:
                                hit = prop
                                break
                        except check.ToolError as e:
                            hit = prop + ' ' + str(e)
                            break
                    break
            what = '%s:%d\n  - %s\n  + %s' % (rel, i + 1, old.strip(), new.strip())
            if hit:
                stat['killed'] += 1
                open(DIR + '/killed', 'a').write('%s %s\n' % (hit, what))
            else:
                stat['survived'] += 1
                open(DIR + '/survivors', 'a').write(what + '\n')
            print(hit, '%.0fs' % (time.time() - t), what, stat, flush=True)
        finally:
            open(p, 'w').write(orig)


main()
