#!/usr/bin/env python3
"""Try planted bugs (run by hand, never by a check).

plant.py add FILE...    FILE defines BUGS, a list of dict(id, property, file, old, new, needs, breaks, demo[, libs, sources]);
                        `edits` may replace file/old/new by a list of triples. Each bug is tried in a scratch copy and, if it counts,
                        written to seeded/<id>/.
plant.py check [ID...]  Run the checks of the properties of planted bugs, each in a scratch copy, and update caught.json.
Options: -j N (parallel bugs), --nocheck
"""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = '661b7340cdfcd57dfe9f8f20f9944a2684c18d88'
SEEDED = os.path.join(HERE, 'seeded')

DEMO = '''#!/bin/bash
# Compile the demonstration against the sources of the current directory, and run it in a scratch directory
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
g++-9 -std=c++14 -O1 -g -w %s -I"$repo/LitlTypes" -I"$repo/LitlContainer" -I"$repo/LitlRaster" -I"$repo/LitlTransforms" -I"$repo/LitlIo" \\
  -I"$repo/LitlRun" -isystem /usr/include/eigen3 "$here/demo.cpp" %s -o "$tmp/demo" %s -pthread
cd "$tmp"
timeout 120 ./demo
'''
PRELUDE = '''#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <sstream>
#include <vector>
#define EXPECT(condition) do { if (not(condition)) { std::printf("FAILED: %s\\n", #condition); std::exit(1); } } while (0)
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def tests(tree, work):
    b = os.path.join(work, 'build')
    env = dict(os.environ, CC='gcc-9', CXX='g++-9', LC_ALL='C.UTF-8')
    p = sh(['cmake', '-S', '/opt/vp/driver', '-B', b, '-G', 'Ninja', '-DREPO=' + tree, '-DCMAKE_BUILD_TYPE=None', '-DCMAKE_CXX_FLAGS=-O0'], env=env)
    p = sh(['ninja', '-C', b], env=env)
    if p.returncode:
        return 'build fails:\n' + p.stdout[-1500:]
    passed = set()
    for t in open(b + '/tests.txt').read().split():
        d = os.path.join(b, 'run', t)
        os.makedirs(d)
        sh(['timeout', '300', b + '/bin/' + t, '--logger=JUNIT,all,report.xml'], cwd=d)
        try:
            import xml.etree.ElementTree as E
            E.parse(d + '/report.xml')
        except Exception:
            if os.path.exists(d + '/report.xml'):
                os.remove(d + '/report.xml')
    out = os.path.join(work, 'out.json')
    sh(['bash', '-c', 'python3 /opt/vp/results.py %s "junit:%s/run/*/report.xml"' % (out, b)])
    passed = set(json.load(open(out))['passed'])
    missing = [t for t in json.load(open('/opt/vp/BASELINE.json'))['stable'] if t not in passed]
    shutil.rmtree(b)
    return 'tests fail: %s' % missing if missing else None


def scratch():
    w = tempfile.mkdtemp(prefix='bug_', dir='/tmp')
    t = os.path.join(w, 'repo')
    sh(['git', 'clone', '-q', '/repo', t])
    return w, t


def check(prop, tree):
    e = dict(os.environ, REPO=tree, VP_OUT=os.path.dirname(tree))
    p = sh(['timeout', '1800', 'python3', os.path.join(HERE, 'run.py'), prop], env=e, cwd=HERE)
    keys = re.findall(r'^  (\S+) in ', p.stdout, re.M)
    return p.returncode, keys, p.stdout


def original(tree, patch):
    """Whether the patch changes a line of the original repository."""
    for f in re.findall(r'^--- a/(.*)$', patch, re.M):
        blame = sh(['git', 'blame', '-l', '-s', 'HEAD', '--', f], cwd=tree).stdout.splitlines()
        part = re.search(r'^--- a/' + re.escape(f) + r'\n.*?(?=^diff |\Z)', patch, re.M | re.S).group(0)
        n = 0
        for line in part.splitlines()[2:]:
            h = re.match(r'@@ -(\d+)', line)
            if h:
                n = int(h.group(1))
            elif line.startswith('-'):
                if blame[n - 1].lstrip('^').startswith(BASE[:39]):
                    return True
                n += 1
            elif line.startswith(' '):
                n += 1
    return False


def add(bug, docheck=True):
    w, t = scratch()
    try:
        edits = bug.get('edits') or [(bug['file'], bug['old'], bug['new'])]
        for f, old, new in edits:
            p = os.path.join(t, f)
            s = open(p).read()
            if s.count(old) != 1:
                return bug['id'], 'old text found %d times in %s' % (s.count(old), f)
            open(p, 'w').write(s.replace(old, new))
        patch = sh(['git', 'diff'], cwd=t).stdout
        if not original(t, patch):
            return bug['id'], 'no original line changed'
        d = os.path.join(w, 'demo')
        os.makedirs(d)
        demo = bug['demo']
        if 'int main' not in demo:
            inc = ''.join(l + '\n' for l in demo.splitlines() if l.startswith('#'))
            body = ''.join(l + '\n' for l in demo.splitlines() if not l.startswith('#'))
            top, sep, rest = body.partition('---\n')
            demo = inc + PRELUDE + 'using namespace Litl;\n' + (top if sep else '') + '\nint main() {\n' + (rest if sep else top) + '  return 0;\n}\n'
        else:
            demo = PRELUDE + demo
        open(d + '/demo.cpp', 'w').write(demo)
        open(d + '/demo.sh', 'w').write(DEMO % (bug.get('flags', ''), ' '.join('"$repo/%s"' % s for s in bug.get('sources', [])), ' '.join('-l' + l for l in bug.get('libs', []))))
        os.chmod(d + '/demo.sh', 0o755)
        p = sh(['bash', d + '/demo.sh'], cwd='/repo')
        if p.returncode:
            return bug['id'], 'demo fails without the bug:\n' + p.stdout[-1500:]
        p = sh(['bash', d + '/demo.sh'], cwd=t)
        if not p.returncode:
            return bug['id'], 'demo passes with the bug'
        if 'error:' in p.stdout and 'demo.cpp' in p.stdout and 'runtime error' not in p.stdout:
            return bug['id'], 'demo does not compile with the bug:\n' + p.stdout[-1500:]
        r = tests(t, w)
        if r:
            return bug['id'], r
        o = os.path.join(SEEDED, bug['id'])
        shutil.rmtree(o, ignore_errors=True)
        shutil.copytree(d, o)
        open(o + '/patch.diff', 'w').write(patch)
        json.dump(dict(property=bug['property'], needs=bug['needs'], what_it_breaks=bug['breaks']), open(o + '/meta.json', 'w'), indent=1)
        if not docheck:
            return bug['id'], 'kept'
        rc, keys, out = check(bug['property'], t)
        record(bug['id'], bug['property'], rc, keys)
        return bug['id'], ('kept, caught by %s' % keys[:4] if rc == 1 else 'kept, MISSED (rc=%d) %s' % (rc, out[-500:] if rc else ''))
    finally:
        shutil.rmtree(w, ignore_errors=True)


def record(bug, prop, rc, keys):
    f = os.path.join(HERE, 'tools', 'caught.json')
    d = json.load(open(f)) if os.path.exists(f) else {}
    d[bug] = dict(property=prop, caught=rc == 1, by=sorted(set(keys))[:6])
    json.dump(d, open(f, 'w'), indent=1, sort_keys=True)


def recheck(i):
    meta = json.load(open(os.path.join(SEEDED, i, 'meta.json')))
    w, t = scratch()
    try:
        p = sh(['git', 'apply', os.path.join(SEEDED, i, 'patch.diff')], cwd=t)
        if p.returncode:
            return i, 'does not apply ' + p.stdout
        rc, keys, out = check(meta['property'], t)
        record(i, meta['property'], rc, keys)
        return i, ('caught by %s' % keys[:4] if rc == 1 else 'MISSED (rc=%d)' % rc)
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main(a):
    j = int(a[a.index('-j') + 1]) if '-j' in a else 2
    nocheck = '--nocheck' in a
    args = [x for k, x in enumerate(a[1:], 1) if not x.startswith('-') and a[k - 1] != '-j']
    os.makedirs(SEEDED, exist_ok=True)
    with ThreadPoolExecutor(j) as pool:
        if a[0] == 'add':
            todo = []
            for f in args:
                name, _, only = f.partition(':')
                ns = {}
                exec(open(name).read(), ns)
                todo += [b for b in ns['BUGS'] if not only or b['id'] in only.split(',')]
            if not args:
                return
            results = pool.map(lambda b: add(b, not nocheck), todo)
        else:
            results = pool.map(recheck, args or sorted(os.listdir(SEEDED)))
        for r in results:
            print('%s: %s' % r, flush=True)


main(sys.argv[1:])
