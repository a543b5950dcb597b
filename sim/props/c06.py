"""C06: a campaign writes only into a folder it created itself."""
import copy
import json
import os
import random
import select
import shutil

from .. import campaign as C, shim, world
from ..core import HarnessError, Violation
from .c04 import campaign

QUICK, THOROUGH = 180, 6000
RULE = ('a run is one campaign (or two to three racing campaigns) aimed at a result path in some prior state, every '
        'file operation logged; distinct = different campaign, prior state and interleaving')
REAL, STUB = C.REAL, C.STUB + ['process scheduler: seeded, one file operation at a time']
STATES = ['empty', 'results', 'crashed', 'file', 'link-to-folder', 'link-to-file', 'dangling', 'user-data', 'read-only']


def generate(rng, i, tier):
    var = C.ORDER[i % 5]
    d = C.make_skim(rng, C.describe(rng, var, rng.choice([1, 2, 3]), skim=True, nfiles=1))
    kind = ['exists', 'race', 'contained'][(i // 5) % 3]
    case = {'d': d, 'kind': kind, 'sub': rng.choice(['res', 'res/', 'a/b/res', 'x y/res', './res', 'a/../res'])}
    if kind == 'exists':
        case['state'] = STATES[(i // 15 * 5 + i) % len(STATES)] if rng.random() < 0.7 else rng.choice(STATES)
        case['relative'] = rng.random() < 0.5
    if kind == 'race':
        case['procs'] = rng.choice([2, 2, 3])
        case['sched'] = rng.randrange(1 << 30)
        case['burst'] = rng.choice([1, 1, 3, 10])
        case['tight'] = rng.random() < 0.5
    return case


def shrink(case):
    if case.get('procs', 0) > 2:
        c = copy.deepcopy(case)
        c['procs'] = 2
        yield c
    if case['sub'] != 'res':
        c = copy.deepcopy(case)
        c['sub'] = 'res'
        yield c
    yield from C.shrink(case)


def occupy(case, root, folder, data):
    st = case['state']
    os.makedirs(os.path.dirname(os.path.normpath(folder)), exist_ok=True)
    p = folder.rstrip('/')
    if st == 'empty':
        os.mkdir(p)
    elif st in ('results', 'crashed', 'read-only'):
        d = dict(case['d'], seeds=[7, 7])
        res = campaign(d, data, p, d['N'])
        if res[0] != 'ok':
            raise HarnessError('earlier campaign: %r' % (res,))
        if st == 'crashed':
            os.remove(os.path.join(p, 'heatload_max_arr.txt'))
            os.remove(os.path.join(p, '#%d' % d['N'], 'LD.txt'))
        if st == 'read-only':
            for b, dirs, files in os.walk(p):
                os.chmod(b, 0o555)
    elif st == 'file':
        with open(p, 'w') as f:
            f.write('precious\n')
    elif st == 'user-data':
        os.makedirs(p + '/#1')
        for n in ('#1/efpa.txt', 'terminal_apoapsis_arr.txt', 'notes.md', 'terminal_apoapsis_arr.txt.tmp'):
            with open(os.path.join(p, n), 'w') as f:
                f.write('mine\n')
    elif st == 'link-to-folder':
        os.mkdir(os.path.join(root, 'elsewhere'))
        os.symlink(os.path.join(root, 'elsewhere'), p)
    elif st == 'link-to-file':
        with open(os.path.join(root, 'note'), 'w') as f:
            f.write('precious\n')
        os.symlink(os.path.join(root, 'note'), p)
    elif st == 'dangling':
        os.symlink(os.path.join(root, 'nowhere'), p)


def run(case, out):
    d = case['d']
    root = world.scratch('area')
    data = os.path.join(root, 'data')
    C.write_files(d, data)
    folder = root + '/' + case['sub']
    if case['sub'].startswith('a/..'):
        os.mkdir(os.path.join(root, 'a'))
    out.probe(case['kind'])
    out.probe('variant-' + d['variant'])
    {'exists': exists, 'contained': contained, 'race': race}[case['kind']](case, out, d, root, data, folder)
    out['nontrivial'] = True
    out['key'] = out['log'] + case['kind'] + case['sub'] + case.get('state', '')


def exists(case, out, d, root, data, folder):
    occupy(case, root, folder, data)
    if case['sub'].endswith('/') and case['state'] in ('file', 'link-to-file', 'dangling'):
        folder = folder.rstrip('/')
    before = C.tree(root)
    res = C.child(lambda: go(d, data, case['sub'] if case['relative'] and not case['sub'].endswith('/') else folder), cwd=root)
    out.fault('prior-' + case['state'])
    if res[0] == 'died':
        raise HarnessError('child: %r' % (res,))
    after = C.tree(root)
    out.event(case['state'], res[0], C.tree_hash({k: x for k, x in after.items() if 'atmfile' not in k}))
    diff = C.tree_diff(before, after)
    if diff:
        raise Violation('overwritten', 'the result path was taken (%s), the campaign %s and %s'
                        % (case['state'], 'went ahead' if res[0] == 'ok' else 'failed', diff))
    if res[0] == 'ok':
        raise Violation('not-refused', 'the result path was taken (%s) and the campaign reported success' % case['state'])


def go(d, data, folder):
    v = C.build(d)
    C.setup(v, d, data)
    C.seed(d)
    C.run(v, d, folder)


def contained(case, out, d, root, data, folder):
    log = shim.Log(20000)

    def job():
        v = C.build(d)
        C.setup(v, d, data)
        C.seed(d)
        shim.arm(log, root + os.sep, [], log_all=True)
        C.run(v, d, folder)
    # what other work may have left around the result folder
    for where in (root, os.path.dirname(os.path.normpath(folder))):
        if os.path.isdir(where):
            for n in ('results.tmp', 'terminal_apoapsis_arr.txt', 'terminal_apoapsis_arr.txt.tmp', 'efpa.txt', 'core.1',
                      '.res.lock', 'res.bak', 'resources/#1/efpa.txt'):
                os.makedirs(os.path.dirname(os.path.join(where, n)), exist_ok=True)
                with open(os.path.join(where, n), 'w') as f:
                    f.write('mine\n')
    before = C.tree(root)
    res = C.child(job, cwd=root)
    if res[0] == 'raised' and res[3]:
        raise Violation('raised', 'the campaign failed: ' + res[4])
    if res[0] != 'ok':
        raise HarnessError('child: %r' % (res,))
    top = os.path.normpath(folder)
    n = 0
    for r in log.records():
        p = os.path.normpath(r['path'])
        if r['op'] not in ('openw', 'mkdir', 'rename', 'unlink', 'rmdir', 'trunc', 'link'):
            continue
        n += 1
        if p == top or p.startswith(top + os.sep):
            continue
        if r['op'] == 'mkdir' and (top + os.sep).startswith(p + os.sep):
            continue
        if p.startswith(('/dev/', '/proc/')):
            continue
        raise Violation('outside', 'the campaign for %s does %s on %s' % (folder, r['op'], p))
    out.probe('operations-checked', n)
    after = C.tree(root)
    rel = os.path.relpath(top, root)
    left = {k: x for k, x in after.items() if k != rel and not k.startswith(rel + os.sep)
            and not (x == 'dir' and (rel + os.sep).startswith(k + os.sep) and k not in before)}
    diff = C.tree_diff({k: x for k, x in before.items()}, left)
    if diff:
        raise Violation('outside', 'beside the result folder: %s' % diff)
    out.event('contained', n, C.tree_hash({k: x for k, x in after.items() if 'atmfile' not in k}))


def race(case, out, d, root, data, folder):
    """Several processes start a campaign into the same folder; a seeded scheduler orders their file operations."""
    rng = random.Random('race/%d' % case['sched'])
    K = case['procs']
    ds = [dict(d, seeds=[d['seeds'][0] + k, d['seeds'][1] + k]) for k in range(K)]
    refs = []
    for k in range(K):
        f = os.path.join(world.scratch('ref%d' % k), 'res')
        res = campaign(ds[k], data, f, d['N'])
        if res[0] == 'raised' and res[3]:
            raise Violation('raised', 'the campaign failed: ' + res[4])
        if res[0] != 'ok':
            raise HarnessError('reference: %r' % (res,))
        refs.append(C.tree(f))
    procs = []
    for k in range(K):
        rq_r, rq_w = os.pipe()
        ak_r, ak_w = os.pipe()
        dn_r, dn_w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                v = C.build(ds[k])
                C.setup(v, ds[k], data)
                C.seed(ds[k])
                shim.arm(None, os.path.normpath(folder), [], entropy=0x5eed + k)
                shim.lib().sim_sched(rq_w, ak_r)
                try:
                    C.run(v, ds[k], folder)
                    res = ['ok']
                except Exception as e:
                    res = ['raised', type(e).__name__]
                shim.disarm()
                os.write(dn_w, json.dumps(res).encode())
            finally:
                os._exit(0)
        os.close(rq_w), os.close(ak_r), os.close(dn_w)
        procs.append({'pid': pid, 'rq': rq_r, 'ak': ak_w, 'dn': dn_r, 'state': 'running', 'res': None, 'buf': b''})
    order = []
    last, left = None, 0
    while True:
        # wait until every process has asked for its next operation or ended
        while any(p['state'] == 'running' for p in procs):
            fds = [p['rq'] for p in procs if p['state'] == 'running'] + [p['dn'] for p in procs if p['state'] == 'running']
            ready, _, _ = select.select(fds, [], [], 120)
            if not ready:
                raise HarnessError('scheduler: no progress')
            for p in procs:
                if p['state'] != 'running':
                    continue
                if p['dn'] in ready:
                    x = os.read(p['dn'], 4096)
                    if x:
                        p['buf'] += x
                    else:
                        p['state'] = 'ended'
                elif p['rq'] in ready:
                    c = os.read(p['rq'], 1)
                    if c:
                        p['state'] = 'waiting'
                        p['op'] = c[0]
        wait = [k for k, p in enumerate(procs) if p['state'] == 'waiting']
        if not wait:
            break
        if last in wait and left > 0:
            k, left = last, left - 1
        else:
            k = rng.choice(wait)
            last, left = k, rng.randrange(case['burst'])
        order.append(k)
        procs[k]['state'] = 'running'
        os.write(procs[k]['ak'], b'g')
    for p in procs:
        os.waitpid(p['pid'], 0)
        for n in ('rq', 'ak', 'dn'):
            os.close(p[n])
        try:
            p['res'] = json.loads(p['buf'].decode())
        except ValueError:
            raise HarnessError('racing process died')
    out.fault('interleaved-processes', K)
    out.probe('scheduling-decisions', len(order))
    got = C.tree(folder)
    won = [k for k in range(K) if procs[k]['res'][0] == 'ok']
    out.event('race', order, [p['res'] for p in procs],
              C.tree_hash({k: x for k, x in got.items() if 'atmfile' not in k}))
    if len(won) != 1:
        raise Violation('race', '%d of %d campaigns racing for one folder reported success' % (len(won), K))
    diff = C.tree_diff(refs[won[0]], got)
    if diff:
        raise Violation('race-damage', 'the winning campaign of %d has its results damaged: %s' % (K, diff))
