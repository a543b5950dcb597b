"""Histories of campaigns on one vehicle: what is on disk afterwards must be what was flown."""
import copy
import os

from . import campaign as C, world
from .core import HarnessError, Violation

CHANGES = ['again', 'rewrite', 'columns', 'npos', 'scenario', 'seeds', 'interrupted', 'flight', 'nmonte', 'atmosphere', 'retarget']


def generate(rng, i, N):
    d = C.describe(rng, C.ORDER[i % 5], rng.choice(N))
    d['wild'] = rng.random() < 0.6
    steps = [rng.choice(CHANGES) for _ in range(rng.choice([0, 1, 1, 2]))]
    return {'d': d, 'steps': steps, 'salt': rng.randrange(1 << 30), 'at': rng.randrange(1, 3000)}


def shrink(case):
    for k in range(len(case['steps'])):
        c = copy.deepcopy(case)
        del c['steps'][k]
        yield c
    yield from C.shrink(case)


def execute(case, out):
    """Runs the campaigns; yields (description, result folder, data folder) of each."""
    import random
    base = world.scratch()
    data = os.path.join(base, 'data')
    rng = random.Random('history/%d' % case['salt'])
    plan = [(None, copy.deepcopy(case['d']))]
    for st in case['steps']:
        d = copy.deepcopy(plan[-1][1])
        if st in ('rewrite', 'atmosphere'):
            d['files'] = [rng.randrange(1 << 30) for _ in d['files']]
        elif st == 'columns':
            rng.shuffle(d['cols'])
            d['km'] = not d['km']
        elif st == 'npos':
            d['npos'] = {40: 61, 61: 90}.get(d['npos'], 40)
        elif st == 'nmonte':
            d['nmonte'] = rng.choice([1, 2, 4, 7])
        elif st == 'seeds':
            d['seeds'] = [rng.randrange(1 << 31), rng.randrange(1 << 31)]
        elif st == 'scenario':
            s = d['s']
            s['efpa'] = round(s['efpa'] + 0.01, 4)
            s['lat'] = round(rng.uniform(-60, 60), 3)
            s['v0'] = round(s['v0'] * 1.0003, 4)
        elif st == 'retarget':
            t = d['s']['target']
            d['s']['target'] = [round(t[0] * rng.uniform(0.9, 1.2), 2), round(t[1] * rng.uniform(0.9, 1.2), 1), t[2]]
        elif st == 'interrupted':
            d['seeds'] = [rng.randrange(1 << 31), rng.randrange(1 << 31)]
        plan.append((st, d))

    def job():
        cls = C.planet_class()
        v = C.build(plan[0][1], cls)
        for k, (st, d) in enumerate(plan):
            if st in (None, 'rewrite', 'columns', 'npos', 'nmonte', 'atmosphere'):
                C.write_files(d, data)
            if st == 'flight':
                world.set_state(v, d['s'])
                world.fly(v, d['s'])
            if st == 'interrupted':
                C.seed(d)
                cls.sim_at, cls.sim_exc = cls.sim_count + case['at'], world.SimInterrupt('stop')
                try:
                    C.run(v, d, os.path.join(base, 'broken%d' % k))
                except world.SimInterrupt:
                    pass
                cls.sim_at = None
            if st == 'retarget':
                v.setTargetOrbitParams(*d['s']['target'])
            world.set_state(v, d['s'])
            C.setup(v, d, data)
            C.seed(d)
            C.run(v, d, os.path.join(base, 'res%d' % k))
            os.rename(data, data + '%d' % k)      # keep the data this campaign saw
            C.write_files(d, data)
        return cls.sim_count

    res = C.child(job)
    if res[0] == 'raised' and res[3]:
        raise Violation('raised', 'the campaign failed: ' + res[4])
    if res[0] != 'ok':
        raise HarnessError('campaign child: %r' % (res,))
    out.probe('density-evaluations', res[1])
    for st in case['steps']:
        out.fault(st)
    out.probe('variant-' + case['d']['variant'])
    for k, (st, d) in enumerate(plan):
        out.probe('campaigns')
        folder = os.path.join(base, 'res%d' % k)
        out.event(k, C.tree_hash({n: x for n, x in C.tree(folder).items() if 'atmfile' not in n}))
        yield d, folder, data + '%d' % k


def located(run, base_data, folder):
    """The run with its atmosphere file looked up where that campaign's data was kept."""
    f = run['atmfile']
    root = os.path.dirname(folder)
    data = os.path.join(root, 'data')
    if not f.startswith(data + os.sep):
        raise Violation('unknown-file', 'the recorded atmosphere file %r is none of the configured ones' % f)
    return dict(run, atmfile=os.path.join(base_data, f[len(data) + 1:]))
