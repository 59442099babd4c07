#!/usr/bin/env python3
"""Revert each fix in a scratch copy and run the check of its property (run by hand, never by a check).

revert.py [-j N] [COMMIT...]    Results go to reverted.json.
"""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = os.path.join(here, 'tools', 'reverted.json')


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def one(entry):
    prop, commit, what = re.match(r'fixed: property=(\w+) (\w+) (.*)', entry).groups()
    w = tempfile.mkdtemp(prefix='rev_', dir='/tmp')
    t = os.path.join(w, 'repo')
    try:
        sh(['git', 'clone', '-q', '/repo', t])
        p = sh(['git', '-c', 'user.name=x', '-c', 'user.email=x', 'revert', '-n', commit], cwd=t)
        if p.returncode:
            return commit, dict(property=prop, what=what, result='not tried: later fixes change the same lines')
        p = sh(['timeout', '1500', 'python3', os.path.join(here, 'run.py'), prop], env=dict(os.environ, REPO=t, VP_OUT=w), cwd=here)
        keys = sorted(set(re.findall(r'^  (\S+) in ', p.stdout, re.M)))
        return commit, dict(property=prop, what=what, result=', '.join(keys[:4]) if p.returncode == 1 else 'NOT REPORTED (exit code %d) %s' % (p.returncode, p.stdout[-300:]))
    finally:
        shutil.rmtree(w, ignore_errors=True)


a = sys.argv[1:]
j = 2
if '-j' in a:
    j = int(a.pop(a.index('-j') + 1))
    a.remove('-j')
entries = [e for e in json.load(open(os.path.join(here, 'known_findings.json')))['fixed'] if not a or e.split()[2] in a]
with ThreadPoolExecutor(j) as pool:
    for c, r in pool.map(one, entries):
        d = json.load(open(out)) if os.path.exists(out) else {}
        d[c] = r
        json.dump(d, open(out, 'w'), indent=1)
        print(c, r['property'], r['result'][:200], flush=True)
