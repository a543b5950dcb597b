"""C09: a result depends on the present configuration only, not on what was done before."""
import copy
import math
import os

import numpy as np

from .. import campaign as C, ops, world
from ..core import HarnessError, Violation

QUICK, THOROUGH = 150, 5000
RULE = ('a run is a history of analyses, flights, campaigns, parameter changes and interrupts on a vehicle (and on a '
        'second vehicle of the same planet), followed by one operation whose result is compared with that of fresh '
        'objects in a process without history; distinct = different history and result')
REAL, STUB = C.REAL, C.STUB
CAP = 60000
KEEP = ['t_minc', 'h_kmc', 'v_kmsc', 'acc_net_g', 'q_stag_total', 'heatload', 'dyn_pres_atm'] + world.RECORD


def generate(rng, i, tier):
    d = C.describe(rng, C.ORDER[i % 5], 2, nfiles=2)
    kind = d['s']['kind']
    names = list(ops.OPS[kind])
    hist = []
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        k = rng.choice(['op', 'op', 'op', 'state', 'param', 'atm', 'other', 'campaign'])
        at = None if rng.random() < 0.6 else int(math.exp(rng.uniform(0, math.log(5000))))
        if k == 'op':
            hist.append(['op', rng.choice(names), at])
        elif k == 'campaign':
            hist.append(['campaign', rng.randrange(1 << 30), at])
        elif k == 'other':
            hist.append(['other', rng.choice(['entry', 'entry2', 'guided', 'hits']), at])
        elif k == 'state':
            hist.append(['state', round(rng.uniform(-60, 60), 3), round(rng.gauss(0, 0.2), 4), at])
        else:
            hist.append([k, rng.randrange(1 << 30), at])
    final = names[(i // 5) % len(names)]
    if (i // 5) % 3 == 1:                       # guided flights after guided flights
        final = 'guided'
        hist[-1] = ['guided', round(rng.uniform(-60, 60), 3), round(rng.choice([-1, 1]) * rng.uniform(0.3, 2.0), 3), None]
        s = d['s']
        if kind == 'lift':
            s['ts'], s['dt'] = (10.0, 5.0) if s['planet'] != 'TITAN' else (20.0, 10.0)
        else:
            s['ts'], s['ts_exit'], s['dt'] = (2.0, 10.0, 2.0)
    return {'d': d, 'hist': hist, 'final': final}


def shrink(case):
    for k in range(len(case['hist'])):
        if len(case['hist']) > 1:
            c = copy.deepcopy(case)
            del c['hist'][k]
            yield c
    for k, st in enumerate(case['hist']):
        if st[-1]:
            c = copy.deepcopy(case)
            c['hist'][k][-1] = None
            yield c


def configure(v, s):
    world.set_state(v, s)
    v.setSolverParams(s['tol'])
    v.setTargetOrbitParams(*s['target'])
    if s['kind'] == 'lift':
        v.setMaxRollRate(s['roll'])
        v.setEquilibriumGlideParams(*s['glide'])
    else:
        v.setDragModulationVehicleParams(*s['beta'])
        v.setDragEntryPhaseParams(*s['entry'])
        v.beta = s['vehicle'][1]
        v.CD = v.mass / (v.beta * v.A)


def guarded(cls, at, f):
    """Runs f until it ends, is interrupted as planned, or exceeds the evaluation cap."""
    cls.sim_at, cls.sim_exc = cls.sim_count + min(at or CAP, CAP), world.SimInterrupt('stop')
    try:
        return f()
    except world.SimInterrupt:
        return None
    finally:
        cls.sim_at = None


def table(p, t, name=None):
    p.loadAtmosphereModel(name or os.path.join(world.REPO, 'atmdata', t['file']), *t['cols'], heightInKmFlag=t['km'])


def run(case, out):
    d = case['d']
    s = d['s']

    def fresh():
        cls = C.planet_class()
        v = C.build(d, cls)
        v.sim_campaign = d
        ops.ready(v, s, world.scratch('fresh'), case['final'])
        return guarded(cls, None, lambda: ops.OPS[s['kind']][case['final']](v, s, world.scratch('fresh')))

    want = C.child(fresh)
    if want[0] == 'raised' and want[3]:
        raise Violation('raised', '%s on fresh objects: %s' % (case['final'], want[4]))
    if want[0] != 'ok':
        raise HarnessError('fresh: %r' % (want,))
    want = want[1]

    cls = C.planet_class()
    v = C.build(d, cls)
    v.sim_campaign = d
    p = v.planetObj
    held = []
    sc = world.scratch('hist')
    for k, step in enumerate(case['hist']):
        kind, at = step[0], step[-1]
        n0 = cls.sim_count
        if kind == 'op':
            ops.ready(v, s, sc, step[1])
            guarded(cls, at, lambda: ops.OPS[s['kind']][step[1]](v, s, sc))
        elif kind == 'campaign':
            o = dict(copy.deepcopy(d), files=[step[1], step[1] + 1], names=['F0.txt', 'F1.txt'], N=1,
                     efpa_sd=0.0, nmonte=2, seeds=[step[1], step[1] + 3])
            C.write_files(o, os.path.join(sc, 'c%d' % k))
            C.setup(v, o, os.path.join(sc, 'c%d' % k))
            C.seed(o)
            guarded(cls, at, lambda: C.run(v, o, os.path.join(sc, 'cr%d' % k)))
        elif kind == 'other':
            s2 = copy.deepcopy(s)
            s2['vehicle'][0] *= 2.0
            s2['vehicle'][1] *= 1.7
            s2['lat'] = -s['lat']
            u = world.make_vehicle(s2, p)
            guarded(cls, at, lambda: ops.OPS[s['kind']][step[1]](u, s2, sc))
        elif kind == 'state':
            s2 = dict(s, lat=step[1], efpa=s['efpa'] + step[2], v0=s['v0'] * 0.999)
            world.set_state(v, s2)
            guarded(cls, at, lambda: v.propogateEntry(300.0, ops.dt_of(s), 0.0))
        elif kind == 'guided':
            w = {'lift': world.LIFT, 'drag': world.DRAG}[s['kind']][s['planet']]['efpa_sd']
            s2 = dict(s, lat=step[1], efpa=s['efpa'] + step[2] * w)
            world.set_state(v, s2)
            guarded(cls, at, lambda: world.fly(v, s2))
        elif kind == 'param':
            s2 = copy.deepcopy(s)
            s2['tol'] = 1e-5
            s2['target'] = [x * 1.5 for x in s['target']]
            if s['kind'] == 'lift':
                s2['roll'] = s['roll'] * 3
                s2['glide'][0] *= 1.3
                s2['glide'][4] = 31
            else:
                s2['beta'] = [s['beta'][0] * 1.4, s['beta'][1] * 0.8]
                s2['entry'][2] = 31
            configure(v, s2)
            guarded(cls, at, lambda: world.fly(v, s2))
        elif kind == 'atm':
            other = [q for q in sorted(world.PLANETS) if q != s['planet']][step[1] % 5]
            table(p, world.PLANETS[other])
            configure(v, s)
            guarded(cls, at, lambda: v.propogateEntry(300.0, ops.dt_of(s), 0.0))
            table(p, world.PLANETS[s['planet']])
        out.fault(kind)
        if at and cls.sim_count - n0 >= min(at, CAP):
            out.fault('interrupt')
        for n in KEEP:
            a = getattr(v, n, None)
            if isinstance(a, np.ndarray):
                held.append((k, kind, n, a, a.copy()))
        configure(v, s)
    ops.ready(v, s, sc, case['final'])
    got = guarded(cls, None, lambda: ops.OPS[s['kind']][case['final']](v, s, sc))
    out.probe('final-' + case['final'])
    if (got is None) != (want is None):
        raise Violation('history-matters', '%s %s after the history %r' % (
            case['final'], 'takes far longer' if got is None else 'ends earlier', case['hist']))
    if got is not None:
        out.array('got', got)
        a, b = np.array(got), np.array(want)
        if a.shape != b.shape:
            raise Violation('history-matters', '%s gives %d values after the history %r, %d without it'
                            % (case['final'], a.size, case['hist'], b.size))
        if not world.same(a, b, rtol=1e-9, atol=1e-12):
            i = int(np.argmax(np.abs(np.nan_to_num(a - b))))
            raise Violation('history-matters', '%s gives %.12g (value %d) after the history %r, %.12g without it'
                            % (case['final'], a[i], i, case['hist'], b[i]))
    for k, kind, n, a, c in held:
        if a.shape != c.shape or not np.array_equal(a, c, equal_nan=True):
            raise Violation('earlier-result-altered', 'the array %s obtained in step %d (%s) was altered afterwards'
                            % (n, k, kind))
    out.probe('results-kept', len(held))
    out.event(cls.sim_count)
    out['nontrivial'] = True
    out['key'] = out['log']
