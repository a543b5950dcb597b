"""Everything a user can ask of a configured vehicle, as named operations with results."""
import os

import numpy as np

from . import campaign as C, world

# half-widths of the search interval around the nominal entry angle (deg) and accuracies
SPAN = {'NEPTUNE': 1.5, 'URANUS': 2.0, 'TITAN': 6.0, 'VENUS': 0.6, 'MARS': 1.5, 'EARTH': 0.9}


def arr(*xs):
    return [float(y) for x in xs for y in np.ravel(np.asarray(x, dtype=float))]


def plain(v):
    return arr(v.t_minc, v.h_kmc, v.v_kmsc, v.thetac, v.phic, v.psic, v.gammac, v.drangec, v.acc_net_g, v.dyn_pres_atm,
               v.stag_pres_atm, v.q_stag_total, v.heatload)


def limits(s):
    w = SPAN[s['planet']]
    return s['efpa'] - w, s['efpa'] + w, 0.6 * w


def dt_of(s):
    return 10.0 if s['kind'] == 'lift' else 3.0


def horizon(s):
    return 1200.0 if s['planet'] != 'TITAN' else 2000.0


def _plain(n, bank):
    def f(v, s, scratch):
        getattr(v, n)(horizon(s), dt_of(s), bank)
        return plain(v)
    return f


def _flag(n, bank, target):
    def f(v, s, scratch):
        a = (horizon(s), dt_of(s), bank)
        return arr(getattr(v, n)(*(a + ((s['target'][1],) if target else ()))))
    return f


def short(s):
    return {'TITAN': 900.0, 'NEPTUNE': 300.0, 'URANUS': 400.0}.get(s['planet'], 900.0)


def _limit(n):
    def f(v, s, scratch):
        lo, hi, tol = limits(s)
        return arr(*getattr(v, n)(short(s), dt_of(s), lo, hi, tol, s['target'][1]))
    return f


def _tcw(n):
    def f(v, s, scratch):
        lo, hi, tol = limits(s)
        return arr(getattr(v, n)(short(s), dt_of(s), lo, hi, lo, hi, tol, tol, s['target'][1]))
    return f


def _tcwd(n):
    def f(v, s, scratch):
        lo, hi, tol = limits(s)
        return arr(getattr(v, n)(short(s), dt_of(s), lo, hi, tol, s['target'][1]))
    return f


def heating(v, s, scratch):
    v.propogateEntry(horizon(s), dt_of(s), 30.0 if s['kind'] == 'lift' else 0.0)
    q, load = v.computeHeatingForMultipleRN(v.tc, v.rc, v.vc, [0.5 * v.RN, v.RN, 2 * v.RN])
    return arr(q, load)


def guided(v, s, scratch):
    world.fly(v, s)
    r = world.record_of(v)
    return arr(*[r[k] for k in world.RECORD + world.RESULTS])


def predict(v, s, scratch):
    """The guidance's own predictor, asked directly at the entry state."""
    a = (s['h0'], s['lon'], s['lat'], s['v0'], s['efpa'], s['psi'], s['dr0'], s['hl0'], horizon(s), dt_of(s))
    n = {'lift': 'predictApoapsisAltitudeKm_withLiftUp', 'drag': 'predictApoapsisAltitudeKm_afterJettision'}[s['kind']]
    if s['solver'] == 2:
        n += '2'
    import inspect
    f = getattr(v, n)
    names = list(inspect.signature(f).parameters)
    val = dict(h0_km=s['h0'], theta0_deg=s['lon'], phi0_deg=s['lat'], v0_kms=s['v0'], gamma0_deg=s['efpa'],
               psi0_deg=s['psi'], drange0_km=s['dr0'], heatLoad0=s['hl0'], t_sec=horizon(s), dt=dt_of(s), delta_deg=0.0,
               density_mes_int=v.planetObj.density_int)
    return arr(f(*[val[k] for k in names]))


def ready(v, s, scratch, op):
    """Configuration an operation needs beforehand."""
    if op == 'campaign':
        d = v.sim_campaign
        data = os.path.join(scratch, 'data')
        if not os.path.isdir(data):
            C.write_files(d, data)
        C.setup(v, d, data)


def campaign(v, s, scratch):
    d = v.sim_campaign
    C.seed(d)
    k = len([n for n in os.listdir(scratch) if n.startswith('res')])
    folder = os.path.join(scratch, 'res%d' % k)
    C.run(v, d, folder)
    return arr(*[C.numbers(os.path.join(folder, n + '.txt')) for n in C.SUMMARY])


OPS = {
    'lift': {'entry': _plain('propogateEntry', 40.0), 'entry2': _plain('propogateEntry2', 130.0),
             'captured': _flag('isCaptured', 70.0, False), 'hits': _flag('hitsTargetApoapsis', 20.0, True),
             'hits2': _flag('hitsTargetApoapsis2', 150.0, True), 'heating': heating,
             'overshoot': _limit('findOverShootLimit'), 'overshoot2': _limit('findOverShootLimit2'),
             'undershoot': _limit('findUnderShootLimit'), 'undershoot2': _limit('findUnderShootLimit2'),
             'tcw': _tcw('computeTCW'), 'tcw2': _tcw('computeTCW2'), 'guided': guided, 'campaign': campaign},
    'drag': {'entry': _plain('propogateEntry', 0.0), 'entry2': _plain('propogateEntry2', 0.0),
             'captured': _flag('isCaptured', 0.0, False), 'hits': _flag('hitsTargetApoapsis', 0.0, True),
             'hits2': _flag('hitsTargetApoapsis2', 0.0, True), 'heating': heating,
             'limit': _limit('findEFPALimitD'), 'limit2': _limit('findEFPALimitD2'),
             'overshoot': _limit('findOverShootLimitD'), 'overshoot2': _limit('findOverShootLimitD2'),
             'undershoot': _limit('findUnderShootLimitD'), 'undershoot2': _limit('findUnderShootLimitD2'),
             'tcw': _tcwd('computeTCWD'), 'tcw2': _tcwd('computeTCWD2'), 'guided': guided, 'campaign': campaign},
}
