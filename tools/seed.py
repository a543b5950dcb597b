#!/usr/bin/env python3
"""
Makes and validates planted bugs.

  seed.py make ID        write /verif/seeded/ID from tools/seedlib/bugs.py
  seed.py try ID [...]   demo on both trees, test suite, and the property's check, in a scratch copy
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

TOP = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIB = os.path.join(TOP, 'tools', 'seedlib')
sys.path.insert(0, LIB)
PYTHON = '/opt/venv/bin/python'


def sh(cmd, cwd=None, env=None, timeout=1200):
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, shell=isinstance(cmd, str), capture_output=True, text=True, timeout=timeout)


def copy_repo():
    d = tempfile.mkdtemp(prefix='seedcopy-', dir='/tmp')
    shutil.rmtree(d)
    subprocess.run(['cp', '-a', '/repo', d], check=True)
    return d


def method(text, name):
    """start and end offset of method `name` (None: the whole file)."""
    if name is None:
        return 0, len(text)
    i = text.index('\n\tdef %s(' % name) + 1
    j = text.find('\n\tdef ', i + 5)
    return i, len(text) if j < 0 else j


def make(bid, bug):
    d = copy_repo()
    try:
        for e in bug['edits']:
            f, m, old, new = e[:4]
            n = e[4] if len(e) > 4 else None
            p = os.path.join(d, f)
            text = open(p, newline='').read()
            if '\r\n' in text:
                old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            i, j = method(text, m)
            body = text[i:j]
            if body.count(old) != 1 and n is None:
                raise SystemExit('%s: %d matches of %r in %s' % (bid, body.count(old), old, m))
            if n is None or n == 0:
                body = body.replace(old, new, 1 if n is None else -1)
            else:
                k = -1
                for _ in range(n):
                    k = body.index(old, k + 1)
                body = body[:k] + new + body[k + len(old):]
            text = text[:i] + body + text[j:]
            with open(p, 'w', newline='') as g:
                g.write(text)
        diff = sh(['git', 'diff', '--no-color'], cwd=d).stdout
        out = os.path.join(TOP, 'seeded', bid)
        os.makedirs(out, exist_ok=True)
        for n in os.listdir(out):
            os.remove(os.path.join(out, n))
        with open(os.path.join(out, 'patch.diff'), 'w', newline='') as g:
            g.write(subprocess.run(['git', 'diff', '--no-color'], cwd=d, capture_output=True).stdout.decode())
        shutil.copy(os.path.join(LIB, 'camp.py'), out)
        with open(os.path.join(out, 'demo.py'), 'w') as g:
            g.write('import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom camp import *\n'
                    + bug['demo'].strip() + '\n')
        with open(os.path.join(out, 'demo.sh'), 'w') as g:
            g.write('#!/bin/bash\nexec %s -B "$(dirname "$0")/demo.py"\n' % PYTHON)
        os.chmod(os.path.join(out, 'demo.sh'), 0o755)
        json.dump(dict(property=bug['property'], needs=bug['needs'], what_it_breaks=bug['breaks']),
                  open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        return diff
    finally:
        shutil.rmtree(d, True)


def attempt(bid, prop=None, suite=True, check=True):
    src = os.path.join(TOP, 'seeded', bid)
    meta = json.load(open(os.path.join(src, 'meta.json')))
    prop = prop or meta['property']
    res = dict(id=bid, property=prop)
    d = copy_repo()
    lone = tempfile.mkdtemp(prefix='seeddemo-', dir='/tmp')
    try:
        for n in os.listdir(src):
            if not n.endswith('.diff') and n != 'meta.json':
                shutil.copy(os.path.join(src, n), lone)
        t = time.time()
        r = sh(['bash', os.path.join(lone, 'demo.sh')], cwd=d)
        res['demo_clean'] = r.returncode
        if r.returncode:
            res['out_clean'] = (r.stdout + r.stderr)[-1500:]
        res['demo_s'] = round(time.time() - t, 1)
        a = sh(['git', 'apply', os.path.join(src, 'patch.diff')], cwd=d)
        if a.returncode:
            res['apply'] = a.stderr
            return res
        r = sh(['bash', os.path.join(lone, 'demo.sh')], cwd=d)
        res['demo_bug'] = r.returncode
        res['out_bug'] = (r.stdout + r.stderr)[-300:]
        if suite:
            base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
            x = os.path.join(lone, 'junit.xml')
            sh([PYTHON, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300', '--continue-on-collection-errors',
                '--ignore=tests/test_telecom.py', '--ignore=tests/test_visibility.py', '-o', 'junit_family=xunit2',
                '--junitxml=' + x], cwd=d, env=dict(PYTHONPATH=d, MPLBACKEND='Agg', PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1'))
            sh(['python3', '/opt/vp/results.py', x + '.json', 'junit:' + x])
            ok = set(json.load(open(x + '.json'))['passed'])
            miss = sorted(base - ok)
            res['suite'] = 'ok' if not miss else 'BROKEN %d: %s' % (len(miss), miss[:3])
            sh(['git', 'checkout', '-q', '--', '.'], cwd=d)
            sh(['git', 'apply', os.path.join(src, 'patch.diff')], cwd=d)
        if check:
            t = time.time()
            r = sh(['python3', os.path.join(TOP, 'check.py'), '--property', prop, '--tier', 'quick', '--seed', '1'], cwd=TOP,
                   env=dict(VERIF_REPO=d, VERIF_SEED='1', VERIF_TIER='quick', VERIF_EVIDENCE_DIR=lone))
            res['check'] = 'CAUGHT' if r.returncode == 1 and 'VIOLATION property=%s ' % prop in r.stdout else 'missed rc=%d' % r.returncode
            res['check_s'] = round(time.time() - t)
            res['check_out'] = '\n'.join((r.stdout + r.stderr).splitlines()[-6:])[-700:]
        return res
    finally:
        shutil.rmtree(d, True)
        shutil.rmtree(lone, True)


if __name__ == '__main__':
    import bugs
    cmd, ids = sys.argv[1], sys.argv[2:] or list(bugs.BUGS)
    for b in ids:
        if cmd in ('make', 'both'):
            print(make(b, bugs.BUGS[b]))
        if cmd in ('try', 'both', 'demo'):
            r = attempt(b, suite=cmd != 'demo', check=cmd != 'demo')
            print(json.dumps(r, indent=1), flush=True)
