"""C19: energy leaves the vehicle only through drag."""
import numpy as np

from .. import flight, ref, world
from ..core import Violation

QUICK, THOROUGH = 72, 3000
RULE = ('a run is one guided flight which loses energy to drag; distinct = different event log')
REAL, STUB = flight.REAL, flight.STUB + ['reference energy and drag work as oracle']
shrink = flight.shrink


def generate(rng, i, tier):
    c = flight.generate(rng, i, tol=1e-9)
    if i % 4 == 1:
        flight.thicken(rng, c)
    if i % 4 == 3:
        c['dist'] = [{'k': 'bias', 'a': -18.0}]
        c['s']['tol'] = 1e-11
        c['s']['lat'] = round(rng.uniform(-75, 75), 3)
        c['s']['psi'] = round(rng.uniform(-180, 180), 3)
    return c


def run(case, out):
    f = flight.fly(case)
    f.describe(out)
    f.need_log()
    vac = case['dist'] == [{'k': 'bias', 'a': -18.0}]
    E = ref.energy(f.w, f.y)
    dE = np.diff(E)
    cyc = f.cycle_of()[1:]
    W = ref.work(f.w, f.y[:-1], np.diff(f.t), np.radians(f.bank)[cyc], f.beta_of_cycle()[cyc], f.LD, 4 if vac else 12)
    scale = f.planet.Vref ** 2
    h = f.y[:, 0] - f.w.RP
    edge = ((h[:-1] - f.w.h_thres) * (h[1:] - f.w.h_thres) <= 0) | (np.minimum(h[:-1], h[1:]) - 1.5 * np.abs(f.y[:-1, 3] * np.sin(f.y[:-1, 5])) * np.diff(f.t) < 0)
    err = np.abs(dE + W) / scale
    err[edge] = 0.0
    # solver 2 reports interpolated states: their error is not cumulative, but larger
    base = 1e-5 if case['s']['solver'] == 1 else 5e-5
    lim = 1e-9 if vac else base + 5e-5 * np.abs(W) / scale
    if np.any(err > lim):
        i = int(np.argmax(err / lim))
        raise Violation('energy-step', 'over sample %d (t=%.3f s, h=%.3f km) the specific energy changes by %.6g J/kg, '
                        'drag takes %.6g J/kg' % (i, f.t[i], h[i] / 1e3, dE[i], -W[i]))
    tot = abs(float(E[-1] - E[0] + W.sum())) / scale
    if tot > (1e-8 if vac else 1e-4) and not edge.any():
        raise Violation('energy-balance', 'energy over the flight changes by %.6g J/kg, drag takes %.6g J/kg'
                        % (E[-1] - E[0], -W.sum()))
    if np.any(dE / scale > (1e-9 if vac else base / 5)):
        raise Violation('energy-gain', 'energy grows by %.6g J/kg in one step' % dE.max())
    out.probe('energy-steps', len(dE))
