"""C16: the flight does not depend on atmosphere the vehicle has not reached."""
import copy

import numpy as np

from .. import flight, world
from ..core import Violation

QUICK, THOROUGH = 60, 2000
RULE = ('a run is a pair of flights through two atmospheres which are the same above an altitude and '
        'differ below it, where the vehicle spends at least three cycles above it; distinct = '
        'different event log of the pair')
REAL, STUB = flight.REAL, flight.STUB
shrink = flight.shrink
ASSUMPTIONS = ['air less than 2.5 km below the vehicle counts as reached (the on-board model measures '
               'the scale height over the last kilometres)']
MARGIN = 2.5e3


def generate(rng, i, tier):
    c = flight.generate(rng, i, tol=1e-8)
    c['frac'] = round(rng.choice([rng.uniform(-0.5, 1.0), rng.uniform(-0.1, 0.15)]), 4)
    # or just below the air reached when the phase changes
    c['aim'] = [rng.choice([-3, -2, -1, -1, 0, 0, 1]), round(4e3 * rng.random() ** 3, 1)] if rng.random() < 0.45 else None
    c['a'] = round(rng.choice([-1, 1]) * rng.uniform(0.2, 2.0), 3)
    return c


def near(a, b, lim=3e-5):
    """Equal but for the integrator, whose last step looks a little ahead."""
    if a.shape != b.shape:
        return False
    if not len(a) or np.all(np.isnan(a) & np.isnan(b)):
        return True
    return bool(np.max(np.abs(a - b)) <= lim * max(1e-9, float(np.max(np.abs(a)))))


def run(case, out):
    s = case['s']
    f = flight.fly(case)
    f.describe(out)
    h = f.rec['h_km_full'] * 1e3
    lowest = float(np.min(h))
    # altitude below which the second world differs: at frac of the way up
    c = lowest + case['frac'] * (h[0] - lowest)
    if case['frac'] < 0:
        c = lowest - MARGIN - 2e3 + case['frac'] * 20e3
    if case.get('aim') and f.ncyc > 1:
        k = min(max(1, f.k_exit + case['aim'][0]), f.ncyc - 1)
        c = h[int(f.start[k])] - MARGIN - case['aim'][1]
        out.probe('aimed-at-the-phase-change')
    if c < 100.0:
        c = 100.0
    two = copy.deepcopy(case)
    two['dist'] = two['dist'] + [{'k': 'below', 'c': c, 'w': 500.0, 'a': case['a']}]
    out.fault('density-below')
    g = flight.fly(two)
    g.describe(out)
    reached = np.nonzero(h <= c + MARGIN)[0]
    last = int(reached[0]) if len(reached) else len(h)
    # a guidance cycle integrates ahead of its last recorded sample: compare whole cycles only
    if len(reached):
        k = int(f.cycle_of()[last])
        n = int(f.start[k])
        out.probe('diverge-in-cycle', k)
    else:
        n = len(h)
        out.probe('never-reached')
        if len(g.rec['h_km_full']) != len(h):
            raise Violation('depends-on-unreached-air', 'the flight has %d samples instead of %d although the '
                            'atmosphere only differs below %.3f km and it never goes below %.3f km'
                            % (len(g.rec['h_km_full']), len(h), c / 1e3, lowest / 1e3))
    out['nontrivial'] = n >= 4
    for name in world.RECORD:
        a, b = f.rec[name][:n], g.rec[name][:n]
        if not near(a, b):
            m = min(len(a), len(b))
            i = int(np.argmax(np.abs(a[:m] - b[:m])))
            raise Violation('depends-on-unreached-air',
                            '%s differs from sample %d on (altitude %.3f km) although the atmospheres only '
                            'differ below %.3f km' % (name, i, h[min(i, len(h) - 1)] / 1e3, c / 1e3))
    kk = k + 1 if len(reached) else f.ncyc       # the command of a cycle is given where it starts
    if min(kk, f.k_exit or kk) != min(kk, g.k_exit or kk):
        raise Violation('depends-on-unreached-air', 'the phase changes in cycle %r instead of %r, and the atmospheres only '
                        'differ below %.3f km, reached in cycle %d' % (g.k_exit, f.k_exit, c / 1e3, kk - 1))
    a, b = (np.cos(np.radians(x.rec['delta_deg_array'][:kk])) for x in (f, g))
    if not near(a, b, 1e-3) or not near(f.rec['t_step_array'][:kk], g.rec['t_step_array'][:kk]):
        raise Violation('depends-on-unreached-air', 'bank angles differ in the first %d cycles' % kk)
    if not len(reached):
        for name in world.RESULTS:
            if not near(f.rec[name], g.rec[name], 1e-3):
                raise Violation('depends-on-unreached-air', '%s is %r instead of %r'
                                % (name, g.rec[name][0], f.rec[name][0]))
