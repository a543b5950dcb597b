"""C13: every recorded step obeys the equations of motion."""
import numpy as np

from .. import flight, ref, world
from ..core import Violation

QUICK, THOROUGH = 100, 4000
RULE = ('a run is one propagated trajectory (guided flight, or single constant-bank trajectory) with '
        'at least ten samples; distinct = different event log')
REAL, STUB = flight.REAL, flight.STUB + ['reference point-mass dynamics (RK4) as oracle']


def shrink(case):
    for c in flight.shrink(case):
        if 'thin' not in case['mode'] or c['dist'] == case['dist']:
            yield c


ASSUMPTIONS = ['the harness sets the solver tolerance to 1e-8 (1e-11 where there is almost no air)']

# accepted difference per step, non-dimensional: r, lon, lat, v, heading, fpa, range
AIR = np.array([4e-7, 4e-7, 4e-7, 4e-5, 8e-6, 4e-5, 4e-7])
THIN = np.full(7, 2e-9)


def generate(rng, i, tier):
    mode = ['air', 'thin', 'single', 'air', 'single-thin'][i % 5]
    c = flight.generate(rng, i // 5, tol=1e-8)
    c['mode'] = mode
    if 'thin' in mode:
        c['dist'] = [{'k': 'bias', 'a': -18.0}]
        c['s']['tol'] = 1e-11
        c['s']['lat'] = round(rng.uniform(-75, 75), 3)
        c['s']['psi'] = round(rng.uniform(-180, 180), 3)
    elif rng.random() < 0.3:
        flight.thicken(rng, c)
    if 'single' in mode:
        c['solver'] = rng.choice([1, 2])
        c['bank'] = round(rng.uniform(-180, 180), 2)
        c['t'] = rng.choice([60.0, 200.0, 600.0])
        c['dt'] = rng.choice([0.5, 1.0, 2.0])
        if c['s']['kind'] == 'drag':
            c['s']['vehicle'][2] = rng.choice([0.0, 0.2, 0.4])
        if rng.random() < 0.3:
            c['s']['vehicle'][2] = round(rng.choice([-1, 1, 1]) * 10 ** rng.uniform(-2.5, 0), 4)
    return c


def run(case, out):
    s = case['s']
    lim = THIN if 'thin' in case['mode'] else AIR
    if 'single' in case['mode']:
        atm = world.SimAtmosphere(s['planet'], case['dist'])
        v = world.make_vehicle(s, world.make_planet(s['planet'], atm))
        (v.propogateEntry if case['solver'] == 1 else v.propogateEntry2)(case['t'], case['dt'], case['bank'])
        rec = {n: np.array(getattr(v, n), dtype=float) for n in
               ('t_minc', 'h_kmc', 'theta_degc', 'phi_degc', 'v_kmsc', 'psi_degc', 'gamma_degc', 'drange_kmc')}
        w = flight.reference(s, v.planetObj, atm.pure)
        y = ref.states(rec, w, 'c')
        t = rec['t_minc'] * 60.0
        bank = np.full(len(t) - 1, np.radians(case['bank']))
        beta = np.full(len(t) - 1, s['vehicle'][1])
        LD = s['vehicle'][2]
        for n in rec:
            out.array(n, rec[n])
        out.probe('single-trajectories')
        for d in atm.dist:
            out.fault('density-' + d['k'])
        out['nontrivial'], out['key'] = len(t) >= 10, out['log']
        out['sim_s'] += float(t[-1]) if len(t) else 0.0
        vref = v.planetObj.Vref
    else:
        f = flight.fly(case)
        f.describe(out)
        f.need_log()
        w, y, t, LD = f.w, f.y, f.t, f.LD
        cyc = f.cycle_of()[1:]
        bank, beta = np.radians(f.bank)[cyc], f.beta_of_cycle()[cyc]
        vref = f.planet.Vref
    if len(t) < 2:
        return
    out.probe('steps-checked', len(t) - 1)
    dt = np.diff(t)
    n = 16 if 'thin' not in case['mode'] else 8
    z = ref.advance(w, y[:-1], dt, bank, beta, LD, n)
    compare(w, y, z, t, bank, beta, lim, vref)


def compare(w, y, z, t, bank, beta, lim, vref):
    """Every recorded step y[i] -> y[i+1] against where the reference gets, z[i]."""
    dt = np.diff(t)
    e = np.abs(z - y[1:]) / np.array([w.RP, 1, 1, vref, 1, 1, w.RP])
    # steps over an altitude where the modelled atmosphere ends are not smooth
    h = y[:, 0] - w.RP
    edge = ((h[:-1] - w.h_thres) * (h[1:] - w.h_thres) <= 0) | (np.minimum(h[:-1], h[1:]) - 1.5 * np.abs(y[:-1, 3] * np.sin(y[:-1, 5])) * dt < 0)
    near = np.maximum(np.abs(y[1:, 5]), np.abs(y[:-1, 5])) > np.radians(80.0)   # angles are singular near the vertical
    near |= np.maximum(np.abs(y[1:, 2]), np.abs(y[:-1, 2])) > np.radians(78.0)  # ... and near the poles
    e[edge] = 0.0
    e[:, 4] *= np.cos(y[1:, 5])
    e[near] = 0.0
    lim = lim + np.abs(np.diff(y, axis=0)) * np.array([0, 0, 0, 0, 5e-5, 5e-5, 0]) * (lim[4] > 1e-8)
    bad = e > lim
    if np.any(bad):
        i, j = np.unravel_index(int(np.argmax(e / lim)), e.shape)
        name = ['altitude', 'longitude', 'latitude', 'speed', 'heading', 'flight-path angle', 'range'][j]
        unit = [1e-3, 57.29577951, 57.29577951, 1e-3, 57.29577951, 57.29577951, 1e-3][j]
        off = w.RP if j == 0 else 0.0
        raise Violation('off-the-equations', 'from sample %d (t=%.3f s, h=%.3f km) over %.3f s the %s goes '
                        'from %.9g to %.9g, the equations of motion give %.9g (bank %.4f deg, beta %.4f)'
                        % (i, t[i], h[i] / 1e3, dt[i], name, (y[i, j] - off) * unit, (y[i + 1, j] - off) * unit,
                           (z[i, j] - off) * unit, np.degrees(bank[i]), beta[i]))
