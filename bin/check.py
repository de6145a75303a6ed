#!/usr/bin/env python3
"""check.py PROP [quick|thorough] [--seed N] [--keep]

Decides one property against /repo's working tree:
  1. the design-level TLA+ modules of the property are model checked with TLC;
  2. the harness is rebuilt from /repo and drives the real library through
     histories (random ones and ones generated by TLC from the specification);
  3. every recorded history is replayed by TLC against spec/Trace.tla.
Exit 0: held on everything explored; 1: VIOLATION; 2: the check itself failed.
"""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'bin'))
import design

SPEC = os.path.join(VERIF, 'spec')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
TARGET = os.path.join(VERIF, '.build')
NPROC = 8
T0 = time.time()


def log(*a):
    print('[%6.1f]' % (time.time() - T0), *a, flush=True)


class ToolError(Exception):
    pass


def cargo_env():
    e = dict(os.environ)
    e.update(HOME='/root', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true',
             RUSTC_WRAPPER='', CARGO_TARGET_DIR=TARGET, CARGO_TERM_COLOR='never', RUST_BACKTRACE='0')
    e['PATH'] = '/usr/local/bin:/root/.cargo/bin:' + e.get('PATH', '/usr/bin:/bin')
    for k in ('RUSTFLAGS', 'CARGO_INCREMENTAL', 'CARGO_PROFILE_DEV_DEBUG'):
        e.pop(k, None)
    return e


def build():
    fp = os.path.join(TARGET, 'debug', '.fingerprint')
    if os.path.isdir(fp):
        for d in os.listdir(fp):
            if d.startswith('rust_graph-') or d.startswith('vharness-'):
                shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    p = subprocess.run(['cargo', 'build', '--offline', '--quiet'], cwd=os.path.join(VERIF, 'harness'),
                       env=cargo_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        print(p.stdout[-4000:])
        raise ToolError('the harness does not build against /repo')
    return os.path.join(TARGET, 'debug', 'vharness')


def java(args, env, cwd, timeout, heap='2500m', deadline=None):
    cmd = ['java', '-XX:+UseSerialGC', '-XX:TieredStopAtLevel=1', '-Xss256m', '-Xmx' + heap, '-cp', CP] + args
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         errors='replace')
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        raise ToolError('TLC ran out of time: ' + ' '.join(args[-3:]))
    return p.returncode, out


STATES = re.compile(r'(\d+) states generated, (\d+) distinct states found')


def tlc_design(work, cfg, workers, timeout):
    """model check one design module; returns (name, generated, distinct, output)"""
    name, module, conf, heap = cfg['name'], cfg['module'], cfg['cfg'], cfg.get('heap', '3g')
    d = os.path.join(work, 'design-' + name)
    os.makedirs(d)
    with open(os.path.join(d, 'M.cfg'), 'w') as f:
        f.write(conf)
    env = dict(os.environ)
    env.update(cfg.get('env', {}))
    # TLC looks for modules next to the root module
    rc, out = java(['tlc2.TLC', '-workers', str(workers), '-metadir', os.path.join(d, 'md'), '-noGenerateSpecTE',
                    '-config', os.path.join(d, 'M.cfg'), os.path.join(SPEC, module + '.tla')], env, SPEC, timeout, heap)
    m = STATES.findall(out)
    if 'Model checking completed. No error has been found.' not in out or not m:
        print(out[-3000:])
        raise ToolError('design model %s does not hold' % name)
    return name, int(m[-1][0].replace(',', '')), int(m[-1][1].replace(',', '')), out


FAIL = re.compile(r'<<\s*"FAIL",\s*(\d+),\s*\{([^}]*)\}\s*>>', re.S)


def validate(work, prop, shard, trace, timeout):
    """replay one trace; returns dict(states, lines, fails=[(line, [clauses])], coverage)"""
    n = 0
    with open(trace, 'rb') as f:
        for _ in f:
            n += 1
    if n == 0:
        return dict(states=0, lines=0, fails=[])
    env = dict(os.environ)
    env.update(TRACE=trace, PROP=prop)
    rc, out = java(['tlc2.TLC', '-workers', '1', '-metadir', os.path.join(work, 'md%d' % shard), '-noGenerateSpecTE',
                    '-config', os.path.join(SPEC, 'Trace.cfg'), os.path.join(SPEC, 'Trace.tla')],
                   env, SPEC, timeout)
    fails = [(int(a), sorted(re.findall(r'"([^"]*)"', b))) for a, b in FAIL.findall(out)]
    m = STATES.findall(out.replace(',', '')) or re.findall(r'(\d+) states generated (\d+) distinct', out.replace(',', ''))
    done = 'Model checking completed. No error has been found.' in out
    states = int(m[-1][0]) if m else 0
    if not done:
        if 'OutOfMemory' in out or 'StackOverflow' in out or states == 0 or rc < 0:
            print(out[-3000:])
            raise ToolError('TLC failed on a trace')
        # the specification has no step for the next line
        fails.append((states, ['no-step']))
        tail = out[out.find('Error:'):][:1500]
    elif states != n + 1:
        raise ToolError('trace not consumed: %d of %d' % (states, n))
    else:
        tail = ''
    return dict(states=states, lines=n, fails=fails, tail=tail)


def harness(binary, prop, tier, seed, work, shard, nshards, sched, timeout, only=None):
    trace = os.path.join(work, 'trace%d.ndjson' % shard)
    open(trace, 'w').close()
    cmd = [binary, 'run', '--prop', prop, '--tier', tier, '--seed', str(seed), '--out', trace,
           '--tmp', os.path.join(work, 'scratch%d' % shard), '--shard', '%d/%d' % (shard, nshards)]
    if sched:
        cmd += ['--sched', sched]
    if only is not None:
        cmd += ['--only', str(only)]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace',
                           timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError('the harness ran out of time')
    if p.returncode < 0:
        # killed by a signal: the library took the process down
        with open(trace, 'rb+') as f:
            data = f.read()
            cut = data.rfind(b'\n') + 1
            f.truncate(cut)
            f.seek(cut)
            f.write(b'{"op":"crash","signal":%d}\n' % -p.returncode)
    elif p.returncode not in (0, 3):
        print(p.stdout[-3000:])
        raise ToolError('the harness failed with %d' % p.returncode)
    shutil.rmtree(os.path.join(work, 'scratch%d' % shard), ignore_errors=True)
    m = re.search(r'scenarios (\d+) of (\d+)', p.stdout)
    return trace, int(m.group(1)) if m else 0


def sample(line):
    """an event for the evidence file: whole, or its beginning if it is long"""
    return json.loads(line) if len(line) < 2000 else dict(op=line[7:line.index('"', 7)], begins=line[:2000], length=len(line))


def known():
    with open(os.path.join(VERIF, 'known_findings.json')) as f:
        return json.load(f)['findings']


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    prop = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    keep = '--keep' in sys.argv
    thorough = tier == 'thorough'
    os.makedirs(os.path.join(VERIF, '.work'), exist_ok=True)
    work = tempfile.mkdtemp(prefix=prop + '-', dir=os.path.join(VERIF, '.work'))
    try:
        return run(prop, tier, seed, thorough, work)
    finally:
        if not keep:
            shutil.rmtree(work, ignore_errors=True)


def run(prop, tier, seed, thorough, work):
    budget = 13500 if thorough else 800
    designs = design.models(prop, thorough)
    scheds = design.schedules(prop, thorough)
    # 1. design level, while the harness is built
    with ThreadPoolExecutor(max_workers=6) as ex:
        fb = ex.submit(build)
        fd = [ex.submit(tlc_design, work, c, 8 if thorough else 2, budget) for c in designs]
        fs = [ex.submit(tlc_design, work, c, 1, budget) for c in scheds]
        design_res = [f.result() for f in fd]
        sched_res = [f.result() for f in fs]
        binary = fb.result()
    for r in design_res + sched_res:
        log('design model %-28s %9d states generated, %8d distinct' % r[:3])
    sched = None
    nsched = 0
    if sched_res:
        sched = os.path.join(work, 'schedules')
        lines = []
        for c, r in zip(scheds, sched_res):
            lines += design.tour(c, r[3], seed)
        with open(sched, 'w') as f:
            f.write('\n'.join(lines) + '\n')
        nsched = len(lines)
        log('%d schedules cover every transition of the schedule models' % nsched)
    # 2. the real library
    nshards = NPROC * (8 if thorough else 1)
    with ThreadPoolExecutor(max_workers=NPROC) as ex:
        runs = list(ex.map(lambda i: harness(binary, prop, tier, seed, work, i, nshards, sched, budget),
                           range(nshards)))
    scenarios = sum(r[1] for r in runs)
    log('%d scenarios recorded' % scenarios)
    # 3. against the specification
    with ThreadPoolExecutor(max_workers=NPROC) as ex:
        res = list(ex.map(lambda i: validate(work, prop, i, runs[i][0], budget), range(nshards)))
    events = sum(r['lines'] for r in res)
    log('%d events validated' % events)

    ops, violations, findings, samples, ntraces = {}, [], [], [], 0
    kf = [k for k in known() if k['property'] == prop]
    for (trace, _), r in zip(runs, res):
        with open(trace) as f:
            L = f.readlines()
        start, idx = 0, None
        starts = []
        for i, line in enumerate(L):
            op = line[7:line.index('"', 7)]
            ops[op] = ops.get(op, 0) + 1
            if op == 'reset':
                starts.append(i)
        ntraces += len(starts)
        seen = set()
        for line, clauses in sorted(r['fails']):
            i = min(line, len(L)) - 1
            start = max([s for s in starts if s <= i] or [0])
            head = json.loads(L[start])
            rel = i - start
            hit = [k for k in kf if head.get('name', '').startswith(k['scenario'] + '/') and k['event'] == rel
                   and k['clauses'] == clauses
                   and all(json.loads(L[i]).get(f) == x for f, x in k.get('values', {}).items())]
            if hit:
                findings.append(hit[0])
                continue
            if start in seen:
                continue
            seen.add(start)
            violations.append(dict(property=prop, scenario=head.get('name'), index=head.get('idx'), event=rel,
                                   clauses=clauses, seed=seed, tier=tier, spec='spec/Trace.tla',
                                   note=r.get('tail', ''),
                                   history=[json.loads(x) for x in L[start:i + 1]]))
        if starts and len(samples) < 2:
            a = starts[len(starts) // 2]
            samples.append([sample(x) for x in L[a:a + 12]])
    if scenarios == 0 or events == 0:
        raise ToolError('nothing was explored')
    dist = sum(r[2] for r in design_res + sched_res)
    gen = sum(r[1] for r in design_res + sched_res)
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking',
              coverage=dict(states=dist + sum(r['states'] for r in res),
                            transitions=gen + events,
                            traces_validated_against_impl=ntraces,
                            samples=samples,
                            design_models=[dict(name=r[0], generated=r[1], distinct=r[2]) for r in design_res + sched_res],
                            schedules_from_model=nsched,
                            events_validated=events,
                            events_by_operation=ops),
              assumptions=design.ASSUMPTIONS,
              wall_s=round(time.time() - T0, 1), violations=len(violations))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k in {json.dumps(k, sort_keys=True) for k in findings}:
        print('KNOWN-FINDING: property=%s %s' % (prop, json.loads(k)['what']))
    if violations:
        d = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, prop + '.json')
        v = violations[0]
        v['others'] = [dict(scenario=x['scenario'], index=x['index'], clauses=x['clauses']) for x in violations[1:21]]
        with open(path, 'w') as f:
            json.dump(v, f, indent=0)
        for x in violations[:6]:
            last = json.dumps(x['history'][-1])
            log('violated: scenario %s #%s event %d clauses %s: %s' % (x['scenario'], x['index'], x['event'],
                                                                        ','.join(x['clauses']), last[:300]))
        print('%d of %d histories are rejected by the specification' % (len(violations), ntraces))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    log('%s held: %d histories, %d events, %d design states' % (prop, ntraces, events, dist))
    return 0


if __name__ == '__main__':
    try:
        sys.exit(main())
    except ToolError as e:
        print('ERROR:', e)
        sys.exit(2)
