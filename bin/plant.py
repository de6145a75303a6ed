#!/usr/bin/env python3
"""plant.py confirm ID... | against ID... | sweep DIR LANES [ID...]

Development tool for the planted bugs in seeded/ (no check reads them).
confirm: in a scratch copy of /repo, the patch applies, the tree builds, the
         stable tests pass, demo.sh is 0 without and non-zero with the patch,
         and the patch changes lines of the original repository.
against: applies the patch to /repo, runs the checks given after ':' (default
         the bug's own property) and undoes it.
sweep:   as against, in scratch copies below DIR (of /repo and of the committed
         /verif), LANES bugs at a time; all of them if none is named.
"""
import json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COPY = '/tmp/plant/repo'
BASE = '3c4487e'


def sh(cmd, cwd, timeout=900, **env):
    e = dict(os.environ, HOME='/root', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true',
             RUST_BACKTRACE='0', CARGO_TERM_COLOR='never', CARGO_PROFILE_DEV_DEBUG='line-tables-only', **env)
    p = subprocess.run(cmd, cwd=cwd, shell=True, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       errors='replace', timeout=timeout)
    return p.returncode, p.stdout


def tests():
    rc, out = sh('cargo test --workspace --no-fail-fast --offline -- --test-threads 8', COPY,
                 CARGO_TARGET_DIR=COPY + '/target')
    return set(re.findall(r'^test (.*?) \.\.\. ok$', out, re.M)), out


def confirm(ids):
    if not os.path.isdir(COPY):
        os.makedirs('/tmp/plant', exist_ok=True)
        subprocess.check_call(['cp', '-a', '/repo', COPY])
    sh('git checkout -q -f %s && git clean -fdq' % subprocess.check_output(
        ['git', '-C', '/repo', 'rev-parse', 'HEAD'], text=True).strip(), COPY)
    clean, _ = tests()
    bad = []
    for i in ids:
        d = os.path.join(V, 'seeded', i)
        p = os.path.join(d, 'patch.diff')
        res = []
        files, orig = None, 0
        for line in open(p):
            if line.startswith('--- a/'):
                files = line[6:].strip()
                _, base = sh('git show %s:%s' % (BASE, files), COPY)
                base = set(x.strip() for x in base.splitlines())
            elif line.startswith('-') and not line.startswith('---') and line[1:].strip() in base and len(line.strip()) > 3:
                orig += 1
        if not orig:
            res.append('changes no original line')
        rc0, out0 = sh('bash %s/demo.sh' % d, COPY, DEMO_TARGET='/tmp/plant/demo')
        if rc0 != 0:
            res.append('demo fails on the clean tree: ' + out0[-1500:])
        rc, out = sh('git apply %s' % p, COPY)
        if rc:
            res.append('patch does not apply: ' + out)
        else:
            sh('find src -name "*.rs" | xargs touch', COPY)
            got, out = tests()
            if not clean <= got:
                res.append('tests: %s %s' % (sorted(clean - got), out[-1500:] if not got else ''))
            for feat in ('ldbc', 'usize_id'):
                rc, out = sh('cargo check --workspace --all-targets --features %s --offline' % feat, COPY,
                             CARGO_TARGET_DIR=COPY + '/target')
                if rc:
                    res.append('features %s: %s' % (feat, out[-1000:]))
            rc1, out1 = sh('bash %s/demo.sh' % d, COPY, DEMO_TARGET='/tmp/plant/demo')
            if rc1 == 0:
                res.append('demo passes with the patch')
            elif 'error[' in out1 or 'could not compile' in out1:
                res.append('demo does not compile ' + out1[-1500:])
        sh('git checkout -q -f . && git clean -fdq', COPY)
        sh('find src -name "*.rs" | xargs touch', COPY)
        print(i, 'OK' if not res else 'BAD ' + '; '.join(res), flush=True)
        if res:
            bad.append(i)
    print('bad:', bad)


def against(ids):
    rows = []
    for i in ids:
        i, _, checks = i.partition(':')
        d = os.path.join(V, 'seeded', i)
        prop = json.load(open(os.path.join(d, 'meta.json')))['property']
        checks = checks.split(',') if checks else [prop]
        rc, out = sh('git apply %s/patch.diff' % d, '/repo')
        assert rc == 0, out
        try:
            for c in checks:
                rc, out = sh('python3 bin/check.py %s quick' % c, V, 1000)
                v = [x for x in out.splitlines() if 'violated' in x or 'VIOLATION' in x or 'ERROR' in x or 'histories are' in x]
                print(i, c, 'rc', rc, '\n   ' + '\n   '.join(x[:230] for x in v[-3:] + v[:1]) if v else '', flush=True)
                rows.append((i, c, rc))
        finally:
            subprocess.check_call(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
    print('\n'.join('%s %s %s' % r for r in rows))


def lane(d, jobs, lock):
    repo, vf = d + '/repo', d + '/verif'
    os.makedirs(d)
    subprocess.check_call(['git', 'clone', '-q', '/repo', repo])
    subprocess.check_call(['git', 'clone', '-q', V, vf])
    p = vf + '/harness/Cargo.toml'
    s = open(p).read()
    open(p, 'w').write(s.replace('"/repo"', '"%s"' % repo))
    while True:
        with lock:
            if not jobs:
                return
            i = jobs.pop(0)
        i, _, checks = i.partition(':')
        prop = json.load(open(os.path.join(V, 'seeded', i, 'meta.json')))['property']
        rc, out = sh('git apply %s/patch.diff' % os.path.join(V, 'seeded', i), repo)
        assert rc == 0, out
        for c in checks.split(',') if checks else [prop]:
            rc, out = sh('python3 bin/check.py %s quick' % c, vf, 1500)
            cl = sorted(set(re.findall(r'violated: (.*)', out)))
            with lock:
                print(i, c, 'rc', rc, ' | '.join(x[:100] for x in cl)[:400] or out[-300:], flush=True)
        sh('git checkout -q -f .', repo)


def sweep(args):
    import threading
    d, lanes, ids = args[0], int(args[1]), args[2:]
    ids = ids or sorted(os.listdir(os.path.join(V, 'seeded')))
    lock = threading.Lock()
    ts = [threading.Thread(target=lane, args=('%s/%d' % (d, k), ids, lock)) for k in range(lanes)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    shutil.rmtree(d)


if __name__ == '__main__':
    {'confirm': confirm, 'against': against, 'sweep': sweep}[sys.argv[1]](sys.argv[2:])
