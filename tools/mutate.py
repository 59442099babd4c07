#!/usr/bin/env python3
"""Mutate single operators, constants and statements of the code, and run the checks on each mutant (run by hand, never by a check).

mutate.py [-j N] [-n COUNT] [-s SEED] [FILE...]    Survivors (no check reports them) and their diffs go to OUT/mutants.json,
                                                   OUT being the environment variable VP_MUT or /tmp/mutants.
"""
import difflib, json, os, random, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get('VP_MUT', '/tmp/mutants')
CHECKS = {  # By decreasing probability to report
    'Affinity.h': '', 'Mask.h': '', 'Png.h': '', 'Tiff.h': '',
    'AlignedBuffer.h': 'C06 C05', 'Holders.h': 'C05 C24 C06', 'Arithmetic.h': 'C07 C28', 'ContiguousContainer.h': 'C01 C24 C07 C05',
    'DataContainer.h': 'C09 C05 C08 C10 C07 C24', 'DataDistribution.h': 'C10', 'Math.h': 'C08', 'Random.h': 'C11',
    'Sequence.h': 'C05 C09 C24', 'Fits.h': 'C17', 'Ball.h': 'C03 C15', 'BallIterator.h': 'C03', 'Box.h': 'C02 C04 C13', 'BoxIterator.h': 'C02 C04',
    'Matrix.h': 'C28', 'Raster.h': 'C01 C04 C05 C08 C24', 'Raster.hpp': 'C01 C04 C05 C24', 'Sampling.h': 'C18 C14', 'Subraster.h': 'C04',
    'SubrasterIterator.h': 'C04', 'Vector.h': 'C09 C01 C02 C24 C18', 'Chronometer.h': 'C20', 'IterationBenchmark.h': 'C26', 'IterationBenchmark.cpp': 'C26',
    'ProgramOptions.h': 'C21', 'StepperPipeline.h': 'C19', 'Convolution.h': 'C14 C25', 'Dft.h': 'C16', 'DftMemory.h': 'C16 C23', 'DftPlan.h': 'C16',
    'Interpolation.h': 'C12 C13 C15', 'InterpolationMethods.h': 'C12', 'Kernel.h': 'C13', 'LineKernel.h': 'C14', 'MedianFilter.h': 'C15',
    'SeparableKernel.h': 'C14', 'StructuringElement.h': 'C15', 'Exceptions.h': 'C24 C01', 'Segment.h': 'C18 C14', 'SeqUtils.h': 'C24 C08 C01', 'TypeUtils.h': 'C09 C12 C24',
}
SWAPS = [(' < ', ' <= '), (' <= ', ' < '), (' > ', ' >= '), (' >= ', ' > '), (' < ', ' > '), (' == ', ' != '), (' != ', ' == '), (' + ', ' - '), (' - ', ' + '), (' * ', ' + '),
         (' / ', ' * '), (' % ', ' / '), (' += ', ' -= '), (' -= ', ' += '), (' *= ', ' += '), (' && ', ' || '), (' || ', ' && '), (' and ', ' or '), (' or ', ' and '),
         ('not ', ''), ('++', '--'), ('--', '++'), ('min', 'max'), ('max', 'min'), ('front', 'back'), ('back', 'front'), ('true', 'false'), ('false', 'true'),
         ('begin(', 'end('), ('std::floor', 'std::ceil'), ('floor', 'ceil')]


def mutants(path):
    lines = open(path).read().split('\n')
    out = []
    comment = False
    for n, line in enumerate(lines):
        code = line.split('//')[0]
        s = code.strip()
        if s.startswith('/*'):
            comment = True
        if comment:
            comment = '*/' not in s
            continue
        if not s or s.startswith(('#', 'template', 'using ', 'namespace', 'friend', 'typedef')) or 'static_assert' in s:
            continue
        def add(new, what):
            out.append((n, new + line[len(code):], what))
        for a, b in SWAPS:
            for m in re.finditer(re.escape(a), code):
                before, after = code[:m.start()], code[m.end():]
                if a.isalpha() and ((before and re.search(r'\w$', before)) or re.match(r'\w', after)):
                    continue
                if a in (' < ', ' > ', ' * ') and re.search(r'(template|typename|operator)', code):
                    continue
                add(before + b + after, '%s -> %s' % (a.strip(), b.strip()))
        for m in re.finditer(r'(?<![\w.])(\d+)(\.?)(?![\w.<])', code):
            v = int(m.group(1))
            for w in ([1, -1] if v == 0 else [v + 1, v - 1] if v < 10 else [v + 1]):
                add(code[:m.start(1)] + str(w) + code[m.end(1):], '%d -> %d' % (v, w))
        if s.endswith(';') and not s.startswith(('return', 'const ', 'auto ', 'public', 'private', 'throw', 'break', '}', 'static', 'mutable')) and re.search(r'[=(+-]', s) \
                and line.startswith('    ') and not re.match(r'[\w:<>, ]+ [\w]+( \{.*\}|\(.*\)( const)?| = .*)?;$', s):
            add(re.match(r'\s*', code).group() + ';', 'deleted')
        if 'std::move(' in code:
            add(code.replace('std::move(', '(', 1), 'move')
        m = re.match(r'(\s*)if \((.*)\) \{$', code)
        if m:
            add('%sif (false && (%s)) {' % m.groups(), 'if false')
            add('%sif (true || (%s)) {' % m.groups(), 'if true')
        m = re.match(r'(\s*)return (.*) \? (.*) : (.*);$', code)
        if m:
            add('%sreturn %s ? %s : %s;' % (m.group(1), m.group(2), m.group(4), m.group(3)), 'ternary')
        m = re.match(r'(.*)\((\w+), (\w+)\)(.*)$', code)
        if m and s.endswith(';') and m.group(2) != m.group(3):
            add('%s(%s, %s)%s' % (m.group(1), m.group(3), m.group(2), m.group(4)), 'swapped')
        for t, u in (('const T& ', 'const T '), ('const auto& ', 'const auto '), (' double ', ' float '), (' double(', ' float('), ('std::size_t ', 'int '), ('Index ', 'int ')):
            if t in code and line.startswith('    ') and 'for (' not in code:
                add(code.replace(t, u, 1), '%s -> %s' % (t.strip(), u.strip()))
    return [(path, n, lines[n], new, what) for n, new, what in out if new != lines[n]]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def one(mutant):
    path, n, old, new, what = mutant
    w = tempfile.mkdtemp(prefix='mut_', dir='/tmp')
    t = os.path.join(w, 'repo')
    try:
        sh(['git', 'clone', '-q', '/repo', t])
        target = os.path.join(t, os.path.relpath(path, '/repo'))
        lines = open(target).read().split('\n')
        lines[n] = new
        open(target, 'w').write('\n'.join(lines))
        result = 'survived'
        for prop in CHECKS[os.path.basename(path)].split():
            p = sh(['timeout', '700', 'python3', os.path.join(here, 'run.py'), prop], env=dict(os.environ, REPO=t, VP_OUT=w), cwd=here)
            if p.returncode == 1:
                return 'killed by %s: %s' % (prop, ' '.join(sorted(set(re.findall(r'^  (\S+) in ', p.stdout, re.M)))[:3]))
            if p.returncode:
                if 'does not compile' in p.stdout:
                    return 'does not compile'
                result = 'no answer from %s' % prop
        return result
    except Exception as e:
        return 'error %s' % e
    finally:
        shutil.rmtree(w, ignore_errors=True)


def option(a, name, default):
    if name in a:
        i = a.index(name)
        v = int(a[i + 1])
        del a[i:i + 2]
        return v
    return default


def main(a):
    j, count, seed = option(a, '-j', 4), option(a, '-n', 100), option(a, '-s', 1)
    paths = [os.path.join('/repo', f) for f in sh(['git', '-C', '/repo', 'ls-files']).stdout.split() if os.path.basename(f) in CHECKS]
    todo = [m for p in paths if (not a or os.path.basename(p) in a) and CHECKS[os.path.basename(p)] for m in mutants(p)]
    print(len(todo), 'mutants')
    random.Random(seed).shuffle(todo)
    os.makedirs(OUT, exist_ok=True)
    log = os.path.join(OUT, 'mutants.json')
    done = json.load(open(log)) if os.path.exists(log) else {}
    key = lambda m: '%s:%d %s | %s' % (os.path.basename(m[0]), m[1] + 1, m[4], m[3].strip())
    todo = [m for m in todo if key(m) not in done][:count]
    with ThreadPoolExecutor(j) as pool:
        for m, r in zip(todo, pool.map(one, todo)):
            done[key(m)] = r
            json.dump(done, open(log, 'w'), indent=1)
            print(r, '|', key(m), '| was:', m[2].strip(), flush=True)


main(sys.argv[1:])
