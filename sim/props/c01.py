"""C01: a seeded campaign is reproducible, whatever surrounds it."""
import copy
import json
import os
import subprocess
import sys

from .. import campaign as C, shim, world
from ..core import HarnessError, Violation

QUICK, THOROUGH = 35, 1500
RULE = ('a run is one campaign executed 2 to 4 times under different surroundings (working directory, result folder, '
        'clock, entropy, process id, hash seed, times and order of the data files, earlier activity, interrupted predecessor, longer campaign); '
        'distinct = different campaign and surroundings')
REAL, STUB = C.REAL, C.STUB + ['clock, entropy and process id: simulated']
KINDS = ['twice', 'elsewhere', 'clock', 'prior', 'interrupted', 'longer', 'process']


def generate(rng, i, tier):
    var = C.ORDER[i % 5]
    d = C.describe(rng, var, rng.choice([2, 3, 3, 4]), nfiles=rng.choice([3, 4, 5]))
    # the seven surroundings rotate against the five variants
    kinds = [KINDS[(i + i // 5) % 7], 'clock'] + rng.sample(KINDS[:6], 1)
    case = {'d': d, 'kinds': sorted(set(kinds)), 'clock': rng.randrange(1, 1 << 60), 'entropy': rng.randrange(1, 1 << 60),
            'jump': [rng.randrange(1, 12), rng.choice([-1, 1]) * rng.randrange(1, 1 << 58)],
            'step': int(10 ** rng.uniform(3, 14)), 'layout': rng.sample(range(5), 5),
            'pid': rng.randrange(2, 1 << 20), 'hashseed': rng.randrange(1, 1 << 30),
            'at': rng.randrange(1, 4000), 'other': C.describe(rng, rng.choice(C.ORDER), 1, nfiles=1),
            'sub': rng.choice(['out', 'a/b/c', 'x y', './r'])}
    return case


def shrink(case):
    for k in case['kinds']:
        if len(case['kinds']) > 1:
            c = copy.deepcopy(case)
            c['kinds'] = [k]
            yield c
    yield from C.shrink(case)


def once(case, kind, root):
    """One execution of the campaign in directory root; returns nothing."""
    d = case['d'] if kind == 'plain' else dict(case['d'], layout=case['layout'])

    def job():
        cls = C.planet_class()
        folder = os.path.join(root, 'res')
        N = d['N']
        if kind == 'elsewhere':
            folder = case['sub']
            os.environ['HOME'] = root
            os.environ['TZ'] = 'Asia/Tokyo'
        if kind == 'clock':
            shim.arm(None, root)
            L = shim.lib()
            L.sim_clock(case['clock'], case['step'], case['jump'][0], case['jump'][1])
            L.sim_entropy(case['entropy'])
            L.sim_setpid(case['pid'])
        v = C.build(d, cls)
        if kind == 'prior':
            o = case['other']
            C.write_files(o, os.path.join(root, 'other'))
            u = C.build(o)
            C.setup(u, o, os.path.join(root, 'other'))
            C.seed(o)
            C.run(u, o, os.path.join(root, 'othres'))
            world.fly(v, d['s'])
            world.set_state(v, d['s'])
        files = C.setup(v, d)
        if kind == 'interrupted':
            C.seed(dict(d, seeds=[case['pid'], case['pid']]))
            cls.sim_at, cls.sim_exc = case['at'], world.SimInterrupt('stop')
            try:
                C.run(v, d, os.path.join(root, 'broken'))
            except world.SimInterrupt:
                pass
            cls.sim_at = None
            world.set_state(v, d['s'])
            C.setup(v, d, files=files)
        if kind == 'longer':
            N += 2
        C.seed(d)
        if kind == 'twice':
            C.run(v, d, os.path.join(root, 'first'))
            world.set_state(v, d['s'])
            C.setup(v, d, files=files)
            C.seed(d)
        C.run(v, d, folder, N)
        return cls.sim_count

    os.makedirs(root)
    C.write_files(d, root, None if kind == 'plain' else case['pid'] + len(kind))
    if kind == 'process':
        with open(os.path.join(root, 'job.json'), 'w') as f:
            json.dump({'d': d, 'folder': 'res'}, f)
        env = dict(os.environ, PYTHONHASHSEED=str(case['hashseed']))
        r = subprocess.run([sys.executable, os.path.join(os.path.dirname(C.__file__), 'worker.py'), 'job.json'],
                           cwd=root, env=env, capture_output=True, text=True, timeout=170)
        if r.returncode:
            if '/AMAT/' not in r.stderr:
                raise HarnessError('worker: ' + r.stderr[-1500:])
            raise Violation('raised', 'the campaign failed in a fresh process: ' + r.stderr[-600:])
    else:
        res = C.child(job, cwd=root)
        if res[0] == 'raised' and res[3]:
            raise Violation('raised', '%s: the campaign failed: %s' % (kind, res[4]))
        if res[0] != 'ok':
            raise HarnessError('campaign child: %r' % (res,))
    return os.path.join(root, case['sub'] if kind == 'elsewhere' else 'res')


def run(case, out):
    base = world.scratch()
    ref = C.tree(once(case, 'plain', os.path.join(base, 'p')))
    if len([k for k in ref if k.startswith('#') and ref[k] == 'dir']) != case['d']['N']:
        raise Violation('runs-missing', 'the campaign of %d runs left %r' % (case['d']['N'], sorted(ref)[:5]))
    out.event('ref', C.tree_hash(ref))
    out.probe('campaigns')
    out.probe('variant-' + case['d']['variant'])
    for kind in case['kinds']:
        got = C.tree(once(case, kind, os.path.join(base, kind, 'deep')))
        out.probe('campaigns')
        out.fault(kind)
        a, b = ref, got
        if kind == 'longer':
            a = {k: x for k, x in ref.items() if k.startswith('#')}
            b = {k: x for k, x in got.items() if k.split('/')[0] in {k.split('/')[0] for k in a}}
        diff = C.tree_diff(a, b)
        if diff:
            raise Violation('differs-' + kind, 'same configuration and seeds, but %s' % diff)
        if kind == 'twice':
            diff = C.tree_diff(ref, C.tree(os.path.join(base, kind, 'deep', 'first')))
            if diff:
                raise Violation('differs-twice', 'the first of two campaigns: %s' % diff)
        out.event(kind, C.tree_hash(got))
    out['nontrivial'] = True
    out['key'] = out['log'] + ','.join(case['kinds'])
