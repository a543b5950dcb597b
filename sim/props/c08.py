"""C08: analyses leave the vehicle and the planet configured as they were, also when they fail or are interrupted."""
import copy
import math

from .. import campaign as C, ops, world
from ..core import HarnessError, Violation

QUICK, THOROUGH = 120, 5000
RULE = ('a run is a sequence of one to four analyses on one vehicle, some interrupted at a random density evaluation; '
        'the configuration is compared after each; distinct = different sequence, interrupts and results')
REAL, STUB = C.REAL, C.STUB
EXC = {'KeyboardInterrupt': KeyboardInterrupt, 'RuntimeError': RuntimeError, 'MemoryError': MemoryError,
       'FloatingPointError': FloatingPointError}
REFS = [n + '_ref' for n in world.STATE_CONFIG]


def generate(rng, i, tier):
    d = C.describe(rng, C.ORDER[i % 5], 2, nfiles=1)
    if i % 5 in (0, 2) and d['s']['planet'] == 'NEPTUNE':
        d['s']['dt'] = 10.0
    d['s']['tol'] = rng.choice([1e-6, 1e-6, 1e-5, 1e-7])
    names = list(ops.OPS[d['s']['kind']])
    steps = []
    for k in range(rng.choice([1, 1, 2, 3])):
        op = names[(i // 5) % len(names)] if k == 0 else rng.choice(names)
        at = None if rng.random() < 0.35 else int(math.exp(rng.uniform(0, math.log(6000))))
        if at and rng.random() < (0.7 if op == 'heating' else 0.2):
            at = -rng.choice([1, 2, 3, 5, 8, 12, 40, 200])       # counted from the end
        steps.append([op, at, rng.choice(sorted(EXC))])
    return {'d': d, 'steps': steps}


def shrink(case):
    for k in range(len(case['steps'])):
        if len(case['steps']) > 1:
            c = copy.deepcopy(case)
            del c['steps'][k]
            yield c
    for k, st in enumerate(case['steps']):
        if st[1]:
            c = copy.deepcopy(case)
            c['steps'][k][1] = None
            yield c


def total(v, s, op, cls):
    """The density evaluations of an undisturbed run of the analysis."""
    def job():
        n = cls.sim_count
        cls.sim_at, cls.sim_exc = n + 60000, RuntimeError('stop')
        try:
            ops.OPS[s['kind']][op](v, s, world.scratch('count'))
        except RuntimeError:
            pass
        return cls.sim_count - n
    res = C.child(job)
    if res[0] != 'ok':
        raise HarnessError('counting child: %r' % (res,))
    return res[1]


def run(case, out):
    d = case['d']
    s = d['s']
    cls = C.planet_class()
    v = C.build(d, cls)
    v.sim_campaign = d
    for op, at, exc in case['steps']:
        ops.ready(v, s, world.scratch(), op)
        before = world.config_of(v, REFS)
        if at and at < 0:
            at = max(1, total(v, s, op, cls) + 1 + at)
        # nobody waits for ever: a runaway integration is stopped as well
        cls.sim_at, cls.sim_exc = cls.sim_count + (at or 60000), EXC[exc]('stop')
        stopped = False
        try:
            res = ops.OPS[s['kind']][op](v, s, world.scratch())
            out.array(op, res)
        except tuple(EXC.values()) as e:
            if str(e) != 'stop':
                raise
            stopped = True
        cls.sim_at = None
        out.event(op, stopped, cls.sim_count)
        out.probe('op-' + op)
        if stopped:
            out.fault('interrupt-' + exc)
        ignore = []
        if op in ('guided', 'campaign'):
            ignore = world.STATE_CONFIG + REFS
        if op == 'guided' and s['kind'] == 'drag':
            ignore = ignore + ['beta', 'CD']
        bad = world.config_diff(before, world.config_of(v, REFS), ignore)
        if bad:
            raise Violation('configuration-changed', '%s (%s)%s: %s' % (
                op, s['planet'], ' stopped by %s at evaluation %d' % (exc, at or 60000) if stopped else '', '; '.join(bad[:4])))
        # the next analysis starts from the same configuration
        world.set_state(v, s)
        if s['kind'] == 'drag':
            v.beta = s['vehicle'][1]
            v.CD = v.mass / (v.beta * v.A)
    out.probe('planet-' + s['planet'].lower())
    out['nontrivial'] = True
    out['key'] = out['log'] + s['planet']
