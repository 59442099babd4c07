#!/usr/bin/env python3
"""Decide one property: build its harness from the working tree of the repository, run it under sanitizers,
and turn what the monitors and the sanitizers observed into a verdict.

  run.py C01 [--tier quick|thorough] [--seed N] [--scenario BUILD:NAME] [--replay FILE]

Exit 0: held on everything observed. Exit 1: violated (VIOLATION line). Exit 2: inconclusive or harness error.
Environment: VERIF_SEED, VERIF_TIER, REPO (default /repo), VERIF_JOBS.
"""
import argparse, concurrent.futures, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('REPO', '/repo')
BUDGET = float(os.environ.get('VP_BUDGET', '700'))  # Seconds after which a quick check launches nothing more
JOBS = int(os.environ.get('VERIF_JOBS', '8'))
KNOWN = os.path.join(HERE, 'known_findings.json')

CXX = 'g++-9'
COMMON = ['-std=c++14', '-g1', '-fno-omit-frame-pointer', '-Wno-deprecated-declarations', '-w']
SAN = {
    # pointer-overflow: end iterators legitimately form (never dereference) pointers before the data
    'asan': ['-fsanitize=address,undefined', '-fno-sanitize=pointer-overflow', '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS'],
    'tsan': ['-fsanitize=thread'],
    'none': [],
}
LIBRARY_FILES = '(?:%s):\\d+' % '|'.join(sorted({re.escape(f) for d, _, fs in os.walk(REPO) for f in fs
                                            if f.endswith(('.h', '.hpp', '.cpp')) and '/Litl' in d and '/tests' not in d}))
VALGRIND = ['valgrind', '--tool=memcheck', '--leak-check=no', '--error-exitcode=76', '--num-callers=40', '--main-stacksize=16777216',
            '--track-origins=no', '--gen-suppressions=no', '--suppressions=' + os.path.join(HERE, 'valgrind.supp')]
ENV = {
    'ASAN_OPTIONS': 'abort_on_error=0:exitcode=77:detect_leaks=0:halt_on_error=1:detect_stack_use_after_return=1:'
                    'allocator_may_return_null=1:quarantine_size_mb=32:malloc_fill_byte=190:max_malloc_fill_size=4096:strict_init_order=1',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=78',
    'TSAN_OPTIONS': 'suppressions=' + os.path.join(HERE, 'tsan.supp') + ' allocator_may_return_null=1 halt_on_error=0:exitcode=66:report_thread_leaks=0:history_size=4:second_deadlock_stack=1',
}


def includes():
    out = []
    for m in ('LitlTypes', 'LitlContainer', 'LitlRaster', 'LitlTransforms', 'LitlIo', 'LitlRun'):
        out.append('-I' + os.path.join(REPO, m))
    return out + ['-isystem', '/usr/include/eigen3', '-I' + os.path.join(HERE, 'harness')]


def builds(src):
    """The `// BUILD: name=.. san=.. [parts=N] [define=A,B] [libs=..] [timeout=..]` lines of a harness.

    `// EVERY: key=value ..` stands for the builds of the harnesses of other properties, with some options changed.
    `only=C01,C02` and `not=C23` select the properties."""
    out = []
    for line in open(src):
        m = re.match(r'//\s*EVERY:\s*(.*)', line)
        if m:
            change = dict(kv.split('=', 1) for kv in m.group(1).split())
            own = os.path.basename(src)[:3]
            for other in sorted(os.listdir(os.path.dirname(src))):
                prop = other[:3]
                if not re.fullmatch(r'C\d\d_\w+\.cpp', other) or prop == own or prop in change.get('not', '').split(','):
                    continue
                if 'only' in change and prop not in change['only'].split(','):
                    continue
                path = os.path.join(os.path.dirname(src), other)
                if re.search(r'^//\s*EVERY:', open(path).read(), re.M):
                    continue
                for b in builds(path):
                    if b['san'] == 'tsan':
                        continue
                    out.append(dict(b, src=path, **dict(change, id=change.get('prefix', '') + prop + b['id'])))
            continue
        m = re.match(r'//\s*BUILD:\s*(.*)', line)
        if not m:
            continue
        b = dict(kv.split('=', 1) for kv in m.group(1).split())
        for part in range(int(b.get('parts', 1))):
            out.append(dict(b, part=part, id='%s%d' % (b['name'], part)))
    return out


def compile_one(src, b, bdir):
    exe = os.path.join(bdir, b['id'])
    cmd = [CXX] + COMMON + ['-O' + b.get('opt', '0')] + [f for f in SAN[b['san']] if not ('noassert' in b and 'ASSERTIONS' in f)] + ['-DPART=%d' % b['part']]
    cmd += ['-D' + d for d in (b.get('define', '') + ',' + b.get('also', '')).split(',') if d]
    cmd += includes() + [b.get('src', src)]
    for s in b.get('sources', '').split(','):
        if s:
            cmd.append(os.path.join(REPO, s))
    cmd += ['-o', exe] + ['-l' + l for l in b.get('libs', '').split(',') if l] + ['-pthread']
    t = time.time()
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    return dict(b=b, exe=exe, ok=p.returncode == 0, log=p.stdout, wall=time.time() - t, cmd=cmd)


def san_key(text):
    """A stable key of a sanitizer report: its kind and the innermost frame in the library, without line numbers."""
    kind = None
    m = re.search(r'ERROR: AddressSanitizer:? ([\w-]+)', text)
    if m:
        kind = 'asan-' + m.group(1)
    if not kind:
        m = re.search(r'WARNING: ThreadSanitizer: ([^(\n]+)', text)
        if m:
            kind = 'tsan-' + m.group(1).strip().replace(' ', '-')
    if not kind:
        m = re.search(r'runtime error: (.*)', text)
        if m:
            kind = 'ubsan-' + re.sub(r'[^a-z]+', '-', re.sub(r'0x[0-9a-f]+|-?[0-9.e+]+', '', m.group(1).lower()))[:60].strip('-')
    if not kind:
        m = re.search(r'Assertion .* failed|terminate called', text)
        if m:
            kind = 'abort-' + ('assertion' if 'Assert' in m.group(0) else 'terminate')
    if not kind:
        return None
    m = re.search(r'/Litl\w+/(?:Litl\w+/|src/lib/)(?:impl/)?(\w+\.(?:h|hpp|cpp))', text)
    return kind + ('@' + m.group(1) if m else '')


def memcheck_keys(text):
    """The errors of Valgrind in which the library is involved, as (key, block)."""
    out = []
    for block in re.split(r'^==\d+== \n', text, flags=re.M):
        m = re.search(r'^==\d+== ((?:Invalid|Conditional|Use of|Syscall|Source and|Mismatched|Argument|Jump to|Process terminating|Uninit)[^\n]*)', block, re.M)
        f = re.search(r'\((\w+\.(?:h|hpp|cpp)):\d+\)', '\n'.join(l for l in block.splitlines() if re.search(r'\(%s\)' % LIBRARY_FILES, l)))
        if m and f:
            out.append(('memcheck-%s@%s' % (re.sub(r'[^a-z]+', '-', re.sub(r'\d+', '', m.group(1).lower())).strip('-')[:50], f.group(1)), block))
    return out


def run_one(exe, b, scenario, seed, scale, rdir, timeout, hurry):
    out = os.path.join(rdir, b['id'] + '.' + scenario + '.out')
    scratch = os.path.join(rdir, 'cwd.' + b['id'] + '.' + scenario)
    os.makedirs(scratch, exist_ok=True)
    env = {k: v for k, v in os.environ.items() if not k.startswith(('ASAN', 'UBSAN', 'TSAN', 'LSAN'))}
    env.update(ENV)
    env['LC_ALL'] = 'C'
    cmd = (VALGRIND if 'memcheck' in b else []) + [exe, '--scenario', scenario, '--seed', str(seed), '--scale', str(scale), '--out', out]
    res = dict(build=b['id'], scenario=scenario, fails=[], events={}, evals=0, distinct=0, samples=[], status='ok', cmd=cmd)
    for attempt in range(3):
        t = time.time()
        errp = out + '.err'
        with open(errp, 'wb') as err, open(out + '.stdout', 'wb') as so:
            p = subprocess.Popen(cmd, stdout=so, stderr=err, stdin=subprocess.DEVNULL, env=env, cwd=scratch, start_new_session=True)
            hung = False
            try:
                rc = p.wait(timeout=timeout)
            except subprocess.TimeoutExpired:
                hung = True
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                rc = p.wait()
        err = open(errp, errors='replace').read()
        if b['san'] == 'tsan' and 'unexpected memory mapping' in err:
            continue
        if hung and attempt == 0 and 'memcheck' not in b and not hurry():
            continue  # once more before calling it a hang
        if rc == -9 and not hung and attempt == 0:
            continue  # out of memory killer
        break
    res['wall'] = time.time() - t
    cur = ''
    try:
        cur = open(out + '.current', 'rb').read().split(b'\0')[0].decode(errors='replace')
    except OSError:
        pass
    done = False
    try:
        for line in open(out, errors='replace'):
            f = line.rstrip('\n').split('\t')
            if f[0] == 'FAIL':
                res['fails'].append((f[1], f[2] if len(f) > 2 else ''))
            elif f[0] == 'EVENT':
                res['events'][f[1]] = int(f[2])
            elif f[0] == 'SAMPLE':
                res['samples'].append(f[1])
            elif f[0] == 'STAT':
                res['evals'], res['distinct'] = int(f[1]), int(f[2])
            elif f[0] == 'DONE':
                done = True
    except OSError:
        pass
    keys = []
    if 'memcheck' in b:
        # Only the use of memory matters here; Valgrind computes long double values with less precision, and is slow
        found = memcheck_keys(err)
        res['fails'] = [(k, 'case: %s | %s' % (cur, text[:3000])) for k, text in found]
        res['events'] = {'memcheck scenarios': 1, 'oracle checks under memcheck': sum(res['events'].values())}
        if hung or not done:
            res['events']['interrupted memcheck scenarios'] = 1
        return res
    if 'silent' in b:
        # Only what was written matters here: the rest is the business of the properties these scenarios come from
        so = open(out + '.stdout', errors='replace').read()
        res['events'] = {'silent scenarios': 1, 'oracle checks of these scenarios': sum(res['events'].values())}
        if 'src' in b:
            res['fails'] = []
        if hung or rc != 0 or not done:
            res['events'] = {'interrupted scenarios': 1}
            err = ''
        for stream, text in (('stdout', so), ('stderr', err)):
            if text:
                res['fails'].append(('output:' + stream, 'wrote: %s' % text[:1500]))
        left = sorted(os.listdir(scratch))
        if left and 'files' not in b and done:
            res['fails'].append(('output:file', 'created: %s' % ' '.join(left)[:1500]))
        return res
    if b['san'] == 'tsan':
        blocks = re.split(r'={18}\n', err)
        keys = sorted({k for k in (san_key(x) for x in blocks if 'ThreadSanitizer' in x) if k})
        if 'FATAL: ThreadSanitizer' in err:
            res['status'] = 'inconclusive: ' + err[:300]
            return res
        first = next((x for x in blocks if 'WARNING: ThreadSanitizer' in x), err)
        for k in keys:
            res['fails'].append((k, 'case: %s | %s' % (cur, first[:3000])))
    if hung:
        res['fails'].append(('hang:' + scenario, 'no end after %d s (twice); case: %s' % (timeout, cur)))
    elif not done or (rc != 0 and not keys):
        err += open(out + '.stdout', errors='replace').read()[:4000]  # libstdc++ assertions
        k = san_key(err)
        if k:
            res['fails'].append((k, 'case: %s | %s' % (cur, err[:4000])))
        elif rc < 0 or rc in (134, 139):
            res['fails'].append(('crash:signal%d' % abs(rc), 'case: %s | %s' % (cur, err[:2000])))
        else:
            res['status'] = 'inconclusive: exit code %s, %s' % (rc, err[:500])
    if res['status'] == 'ok' and not res['fails'] and res['evals'] == 0:
        res['status'] = 'inconclusive: nothing was observed'
    return res


def probes(prop, base):
    """When the harness does not compile: tell documented uses which do not compile anymore from problems of the harness."""
    out = []
    d = os.path.join(HERE, 'harness', 'probes')
    for f in sorted(os.listdir(d)):
        if f.startswith(prop):
            p = subprocess.run([CXX] + COMMON + includes() + [os.path.join(d, f), '-fsyntax-only'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
            fails = [('compilation:' + f[4:-4], p.stdout[:3000])] if p.returncode else []
            out.append(dict(build='probe', scenario=f[4:-4], fails=fails, events={'probes compiled': 1}, evals=1, distinct=0, samples=[], status='ok', wall=0))
    return out


def matches(entry, prop, key, build, scenario):
    return (entry['property'] == prop and re.fullmatch(entry['key'], key) is not None
            and re.fullmatch(entry.get('scenario', '.*'), scenario) is not None)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--scenario')
    ap.add_argument('--replay')
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    prop = a.property
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed, only = a.seed, a.scenario
    if a.replay:
        r = json.load(open(a.replay))
        seed, tier, only = r['seed'], r['tier'], r['build'] + ':' + r['scenario']
    srcs = sorted(f for f in os.listdir(os.path.join(HERE, 'harness')) if f.startswith(prop + '_') and f.endswith('.cpp'))
    if not srcs:
        print('no harness for', prop)
        return 2
    src = os.path.join(HERE, 'harness', srcs[0])
    t0 = time.time()
    base = tempfile.mkdtemp(prefix='vp_%s_' % prop)
    try:
        return decide(a, prop, tier, seed, only, src, t0, base)
    finally:
        if not a.keep:
            shutil.rmtree(base, ignore_errors=True)


def decide(a, prop, tier, seed, only, src, t0, base):
    bs = builds(src)
    if only and ':' in only:
        bs = [b for b in bs if b['id'] == only.split(':')[0]]
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        comps = list(ex.map(lambda b: compile_one(src, b, base), bs))
    errors, broken, results = [], False, []
    for c in comps:
        if not c['ok']:
            lines = [l for l in c['log'].splitlines() if 'error' in l] or c['log'].splitlines()
            broken = True
            errors.append('harness %s does not compile: %s' % (c['b']['id'], '\n'.join(lines[:1 if errors else 8])[:1500]))
    if broken or (only or '').startswith('probe:'):
        results += [(seed, r) for r in probes(prop, base)]
    t_build = time.time() - t0
    jobs = []
    known = json.load(open(KNOWN)) if os.path.exists(KNOWN) else {'findings': []}
    for c in comps:
        if not c['ok']:
            continue
        p = subprocess.run([c['exe'], '--list'], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=dict(os.environ, **ENV))
        names = p.stdout.split()
        if p.returncode != 0 or not names:
            errors.append('%s lists no scenario: %s' % (c['b']['id'], p.stderr[:500]))
        for n in names:
            if only and n != only.split(':')[-1]:
                continue
            repeat = int(c['b'].get('repeat', 1)) * (3 if tier == 'thorough' else 1)
            if c['b']['san'] != 'tsan':
                repeat = 1
            for k in range(repeat):
                jobs.append((c, n, seed + 1000 * k))
    qscale, tscale = 1, 20
    hung, skipped, late = [], [], []
    def go(j):
        c, n, s = j
        rdir = os.path.join(base, 'seed.%d' % s)
        os.makedirs(rdir, exist_ok=True)
        scale = float(c['b'].get('scale', 1)) * (tscale if tier == 'thorough' else qscale)
        timeout = int(c['b'].get('timeout', 120)) * (20 if tier == 'thorough' else 1)
        hurry = lambda: bool(hung)  # A violation is established: do not insist
        if tier == 'quick' and time.time() - t0 > BUDGET:  # The machine is busy: tell it in the evidence
            late.append('%s:%s' % (c['b']['id'], n))
            return None
        if hurry() and time.time() - t0 > 600:
            skipped.append('%s:%s' % (c['b']['id'], n))
            return None
        r = run_one(c['exe'], c['b'], n, s, scale, rdir, timeout, hurry)
        if any(k.startswith('hang:') for k, _ in r['fails']):
            hung.append(n)
        return s, r
    threads = lambda j: int(j[0]['b'].get('threads', 1))
    for n in sorted({threads(j) for j in jobs}, reverse=True):
        with concurrent.futures.ThreadPoolExecutor(max(1, (JOBS + n - 1) // n)) as ex:
            results += [r for r in ex.map(go, [j for j in jobs if threads(j) == n]) if r]
    if skipped:
        errors.append('skipped after a hang: ' + ' '.join(skipped))
    evals = sum(r['evals'] for _, r in results)
    distinct = sum(r['distinct'] for _, r in results)
    events, samples = {}, []
    violations, knowns = {}, {}
    for s, r in results:
        for k, n in r['events'].items():
            events[k] = events.get(k, 0) + n
        for x in r['samples'][:2]:
            samples.append('%s:%s: %s' % (r['build'], r['scenario'], x))
        if r['status'] != 'ok':
            errors.append('%s:%s %s' % (r['build'], r['scenario'], r['status']))
        for key, detail in r['fails']:
            e = next((e for e in known['findings'] if matches(e, prop, key, r['build'], r['scenario'])), None)
            if e:
                knowns.setdefault(e['what'], []).append((r, key, detail))
            else:
                violations.setdefault(key, []).append((s, r, detail))
    rule = ''
    m = re.search(r'//\s*RULE:\s*(.*(?:\n//\s{2,}.*)*)', open(src).read())
    if m:
        rule = re.sub(r'\n//\s*', ' ', m.group(1))
    wall = time.time() - t0
    step = max(1, len(samples) // 24)
    ev = dict(property=prop, tier=tier, seed=seed, level='exploration',
              coverage=dict(evaluations=evals, distinct_nontrivial=distinct, rule=rule, samples=samples[::step][:30],
                            scenarios=len(jobs), oracle_checks=events, oracle_checks_total=sum(events.values()),
                            builds=[dict(id=c['b']['id'], sanitizer=c['b']['san'], compile_s=round(c['wall'], 1)) for c in comps],
                            known_findings=sorted(knowns), inconclusive=errors[:20], not_run_for_lack_of_time=late),
              assumptions=['Held on the executions counted here, not on all inputs.',
                           'The reference models in the harness and the sanitizer runtimes of %s are trusted.' % CXX],
              wall_s=round(wall, 2), violations=len(violations))
    if not only:
        edir = os.path.join(os.environ.get('VP_OUT', HERE), 'evidence')
        os.makedirs(edir, exist_ok=True)
        with open(os.path.join(edir, prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    for w in sorted(knowns):
        print('KNOWN-FINDING: property=%s %s' % (prop, w))
    if a.v:
        for s, r in sorted(results, key=lambda x: -x[1]['wall'])[:12]:
            print('  %-40s %6.1f s %8d cases %8d distinct' % (r['build'] + ':' + r['scenario'], r['wall'], r['evals'], r['distinct']))
        for c in comps:
            print('  build %s %.1f s' % (c['b']['id'], c['wall']))
    print('%s %s seed=%d: %d cases, %d distinct, %d oracle checks, %d scenarios, build %.1f s, total %.1f s'
          % (prop, tier, seed, evals, distinct, sum(events.values()), len(jobs), t_build, wall))
    if late:
        print('NOT RUN for lack of time:', len(late), 'scenarios')
    for e in errors:
        print('INCONCLUSIVE:', e)
    if violations:
        rp = os.path.join(os.environ.get('VP_OUT', HERE), 'replays')
        os.makedirs(rp, exist_ok=True)
        for key, occ in sorted(violations.items()):
            s, r, detail = occ[0]
            path = os.path.join(rp, '%s_%s.json' % (prop, re.sub(r'[^\w.-]+', '_', key)[:80]))
            with open(path, 'w') as f:
                json.dump(dict(property=prop, key=key, build=r['build'], scenario=r['scenario'], seed=s, tier=tier, detail=detail,
                               occurrences=len(occ), reproduce='python3 %s %s --replay %s' % (os.path.join(HERE, 'run.py'), prop, path)), f, indent=1)
            print('  %s in %s:%s: %s' % (key, r['build'], r['scenario'], detail[:700]))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    return 2 if errors else 0


if __name__ == '__main__':
    sys.exit(main())
