"""C15: heat load is the running integral of the heat rate over the whole flight."""
import numpy as np

from .. import flight, world
from ..core import Violation

QUICK, THOROUGH = 96, 3000
RULE = ('a run is one guided flight (or single trajectory) with a heat load that grows; distinct = '
        'different event log')
REAL, STUB = flight.REAL, flight.STUB
shrink = flight.shrink


def generate(rng, i, tier):
    c = flight.generate(rng, i, tol=1e-6)
    c['single'] = rng.random() < 0.15
    if rng.random() < 0.12:                      # a long record: thousands of samples
        c['s']['dt'] = round(c['s']['dt'] * rng.uniform(0.02, 0.06), 3)
    c['bank'] = round(rng.uniform(0, 180), 1)
    return c


def run(case, out):
    s = case['s']
    if case['single']:
        atm = world.SimAtmosphere(s['planet'], case['dist'])
        v = world.make_vehicle(s, world.make_planet(s['planet'], atm))
        (v.propogateEntry if s['solver'] == 1 else v.propogateEntry2)(600.0, s['dt'], case['bank'])
        t, q, J = v.t_minc * 60.0, v.q_stag_total, v.heatload
        cyc = np.zeros(len(t), dtype=int)
        out.array('J', J)
        out.probe('single-trajectories')
        out['nontrivial'], out['key'] = len(J) > 3, out['log']
    else:
        f = flight.fly(case)
        f.describe(out)
        t, q, J = f.t, f.rec['q_stag_total_full'], f.rec['heatload_full']
        cyc = f.cycle_of()
        out.probe('cycle-joins', f.ncyc - 1)
    if np.any(q < 0):
        raise Violation('negative-heat-rate', 'heat rate %.6g' % q.min())
    want = s['hl0'] + np.concatenate([[0.0], np.cumsum(0.5 * (q[1:] + q[:-1]) * np.diff(t))])
    d = np.abs(J - want)
    lim = 1e-6 * (1.0 + np.abs(want))
    if np.any(d > lim):
        i = int(np.argmax(d > lim))
        raise Violation('heat-load', 'at sample %d (t=%.3f s, guidance cycle %d) the heat load is %.9g J/cm2, '
                        'the heat rate integrates to %.9g from the start value %.9g'
                        % (i, t[i], cyc[i], J[i], want[i], s['hl0']))
    if np.any(np.diff(J) < -1e-9 * np.maximum(1.0, np.abs(J[:-1]))):
        raise Violation('heat-load-decreases', 'the heat load decreases by %.9g' % -np.diff(J).min())
