"""C10: vehicles flown in different threads do not disturb each other."""
import copy
import os
import random
import threading

import numpy as np

from .. import campaign as C, ops, threads, world
from ..core import HarnessError, Violation

QUICK, THOROUGH = 60, 3000
RULE = ('a run is two to four threads, each with its own vehicle on a shared planet object, executing one or two '
        'operations under a seeded schedule which may switch threads at every density evaluation, or in a third of the runs between any two lines; distinct = different '
        'schedule and results')
REAL, STUB = C.REAL, C.STUB + ['thread scheduler: seeded, switches at density evaluations']
CAP = 25000
LIFT = ['entry', 'entry2', 'guided', 'hits', 'hits2', 'heating', 'overshoot2', 'undershoot2', 'tcw2']
DRAG = ['entry', 'entry2', 'guided', 'hits', 'hits2', 'heating', 'limit2', 'overshoot2', 'undershoot2']


def generate(rng, i, tier):
    kind, pid = [('lift', 'NEPTUNE'), ('drag', 'VENUS'), ('lift', 'URANUS'), ('drag', 'MARS'), ('lift', 'TITAN'),
                 ('drag', 'EARTH')][i % 6]
    jobs = []
    for _ in range(rng.choice([2, 2, 3, 4])):
        s = world.scenario(rng, kinds=(kind,), planets=[pid], calm=True)
        if kind == 'lift':
            s['ts'], s['dt'] = 30.0, 10.0
            s['glide'][4] = 21
            s['tmax'] = min(s['tmax'], 1500.0)
        else:
            s['ts'], s['ts_exit'], s['dt'] = 8.0, 20.0, 4.0
            s['entry'][2] = 21
        jobs.append({'s': s, 'ops': [rng.choice(LIFT if kind == 'lift' else DRAG) for _ in range(rng.choice([1, 2]))]})
    fine = i % 3 == 2
    if fine:                       # switch between any two lines of AMAT
        for j in jobs:
            j['ops'] = [rng.choice(['entry', 'entry2', 'hits', 'hits2', 'heating', 'guided'])]
        del jobs[2:]
    return {'fine': fine, 'jobs': jobs, 'sched': rng.randrange(1 << 30), 'burst': rng.choice([1, 3, 20, 100, 1000])}


def shrink(case):
    if len(case['jobs']) > 2:
        for k in range(len(case['jobs'])):
            c = copy.deepcopy(case)
            del c['jobs'][k]
            yield c
    for k, j in enumerate(case['jobs']):
        if len(j['ops']) > 1:
            for o in j['ops']:
                c = copy.deepcopy(case)
                c['jobs'][k]['ops'] = [o]
                yield c


def work(job, planet):
    v = world.make_vehicle(job['s'], planet)
    out = []
    for o in job['ops']:
        world.set_state(v, job['s'])
        if job['s']['kind'] == 'drag':
            v.beta = job['s']['vehicle'][1]
            v.CD = v.mass / (v.beta * v.A)
        out.append(ops.OPS[job['s']['kind']][o](v, job['s'], world.scratch()))
    return out


def run(case, out):
    pid = case['jobs'][0]['s']['planet']
    cls = C.planet_class()

    def shared():
        p = cls(pid)
        t = world.PLANETS[pid]
        p.loadAtmosphereModel(os.path.join(world.REPO, 'atmdata', t['file']), *t['cols'], heightInKmFlag=t['km'])
        for k, x in t.get('set', {}).items():
            setattr(p, k, x)
        return p

    alone = []
    for j in case['jobs']:
        def one():
            cls.sim_at, cls.sim_exc = CAP * len(j['ops']), world.SimInterrupt('stop')
            return [work(j, shared()), cls.sim_count]
        r = C.child(one)
        if r[0] == 'raised' and r[1] == 'SimInterrupt':
            out.probe('too-long')
            out.event('too-long')
            return
        if r[0] == 'raised' and r[3]:
            raise Violation('raised', 'alone: ' + r[4])
        if r[0] != 'ok':
            raise HarnessError('alone: %r' % (r,))
        alone.append(r[1][0])
    p = shared()
    sch = threads.Scheduler(random.Random('threads/%d' % case['sched']), case['burst'], 1.0)
    if case['fine']:
        sch.burst = 40 * case['burst']
        top = os.path.join(world.REPO, 'AMAT') + os.sep

        def local(frame, event, arg):
            if event == 'line':
                sch.hook()
            return local

        threading.settrace(lambda frame, event, arg: local if frame.f_code.co_filename.startswith(top) else None)
    else:
        cls.sim_hook = sch.hook
    cls.sim_at, cls.sim_exc = CAP * 20, world.SimInterrupt('stop')
    res = sch.run([lambda j=j: work(j, p) for j in case['jobs']])
    cls.sim_hook = None
    threading.settrace(None)
    out.fault('thread-switch', sch.switches)
    out.probe('scheduling-decisions', sch.decisions)
    out.probe('threads', len(res))
    out.probe('planet-' + pid.lower())
    for k, (st, x) in enumerate(res):
        if st == 'raised':
            raise Violation('threads-raise', 'thread %d (%r) fails beside the others: %s: %s'
                            % (k, case['jobs'][k]['ops'], type(x).__name__, x))
        for o, a, b in zip(case['jobs'][k]['ops'], x, alone[k]):
            a, b = np.array(a), np.array(b)
            out.array(o, a)
            if a.shape != b.shape or not world.same(a, b, rtol=1e-9, atol=1e-12):
                raise Violation('threads-interfere', '%s in thread %d of %d gives another result than alone (%d switches)'
                                % (o, k, len(res), sch.switches))
    out.event(sch.switches, cls.sim_count)
    out['nontrivial'] = sch.switches > 2
    out['key'] = out['log']
