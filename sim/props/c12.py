"""C12: the record of a guided flight is one gap-free, self-consistent trajectory."""
import numpy as np

from .. import flight, world
from ..core import Violation

QUICK, THOROUGH = 96, 3000
RULE = ('a run is one complete guided flight with at least four guidance cycles; distinct = '
        'different event log (every sample of the record)')
REAL, STUB = flight.REAL, flight.STUB
LEVEL = 'exploration'
shrink = flight.shrink


def generate(rng, i, tier):
    c = flight.generate(rng, i, tol=rng.choice([1e-6, 1e-8]))
    if rng.random() < 0.12:                       # many samples in a guidance cycle
        c['s']['dt'] = c['s']['ts'] / rng.choice([45, 60, 100])
    if rng.random() < 0.25:                       # the same vehicle has flown before
        c['before'] = flight.generate(rng, i)['s']
        c['before'].update(planet=c['s']['planet'], kind=c['s']['kind'])
        c['before']['cdm'] = c['s'].get('cdm')
        for k in ('vehicle', 'tol', 'target', 'roll', 'glide', 'beta', 'entry'):
            if k in c['s']:
                c['before'][k] = c['s'][k]
    return c


def need(ok, cls, msg):
    if not ok:
        raise Violation(cls, msg)


def run(case, out):
    s = case['s']
    v = None
    if case.get('before'):
        b = case['before']
        f0 = flight.fly({'s': b, 'dist': []})
        v = f0.v
        out.probe('reused-vehicle')
    f = flight.fly(case, vehicle=v)
    f.describe(out)
    r, t = f.rec, f.t
    # one time line
    need(abs(t[0]) < 1e-9, 'time-origin', 'the record starts at %.9g s' % t[0])
    dt = np.diff(t)
    need(np.all(dt >= 0), 'time-runs-back',
         'time decreases by %.9g s' % -dt.min())
    need(dt.max() <= s['dt'] * (1 + 1e-6), 'gap-in-record',
         'two samples are %.6f s apart, the sampling step is %g s' % (dt.max(), s['dt']))
    # starts at the configured entry state
    first = [('h_km_full', 'h0'), ('theta_deg_full', 'lon'), ('phi_deg_full', 'lat'),
             ('v_kms_full', 'v0'), ('psi_deg_full', 'psi'), ('gamma_deg_full', 'efpa'),
             ('drange_km_full', 'dr0'), ('heatload_full', 'hl0')]
    for k, n in first:
        need(abs(r[k][0] - s[n]) <= 1e-6 * max(1.0, abs(s[n])), 'wrong-start',
             '%s starts at %.9g, the entry state says %.9g' % (k, r[k][0], s[n]))
    # every cycle starts exactly where the previous one ended
    a, b = f.end[:-1], f.start[1:]
    for k in ('h_km_full', 'theta_deg_full', 'phi_deg_full', 'v_kms_full', 'psi_deg_full',
              'gamma_deg_full', 'drange_km_full', 'heatload_full'):
        d = np.abs(r[k][a] - r[k][b])
        lim = 1e-8 * np.maximum(1.0, np.abs(r[k][a]))
        if np.any(d > lim):
            j = int(np.argmax(d - lim))
            raise Violation('cycle-join', '%s jumps from %.10g to %.10g where guidance cycle %d starts'
                            % (k, r[k][a[j]], r[k][b[j]], j + 1))
    # loads belong to the sample they are recorded with
    h, vel = r['h_km_full'] * 1e3, r['v_kms_full'] * 1e3
    rho = f.w.rho(h)
    q = 0.5 * rho * vel ** 2
    close(f, r['dyn_pres_atm_full'], q / 101325.0, 'dynamic pressure')
    p = np.asarray(f.planet.pressurevectorized(h + f.w.RP), dtype=float)
    close(f, r['stag_pres_atm_full'], (q + p) / 101325.0, 'stagnation pressure')
    f.need_log()
    beta = f.beta_of_cycle()[f.cycle_of()]
    cd = 1.0 if f.w.cdm is None else f.w.cdm(h, vel)
    acc = q / beta * np.sqrt(cd ** 2 + f.LD ** 2) / f.w.g0
    close(f, r['acc_net_g_full'], acc, 'acceleration load')
    fresh = world.make_vehicle(s, world.make_planet(s['planet'], world.SimAtmosphere(s['planet'], case['dist'])))
    heat = np.asarray(fresh.qStagConvective(h + f.w.RP, vel)) + np.asarray(fresh.qStagRadiative(h + f.w.RP, vel))
    close(f, r['q_stag_total_full'], heat, 'stagnation heat rate')
    # cycle log
    need(np.allclose(f.tstep[1:], t[f.start[1:]], rtol=0, atol=1e-6), 'cycle-log-time',
         'the time log of the guidance cycles does not match the record')
    hdot = vel * np.sin(np.radians(r['gamma_deg_full']))
    need(np.allclose(r['hdot_array'][1:], hdot[f.start[1:]], rtol=1e-7, atol=1e-6), 'cycle-log-hdot',
         'the altitude-rate log is not the altitude rate at the start of each guidance cycle')
    n = len(r['h_step_array'])
    need(np.allclose(r['h_step_array'][1:], r['h_km_full'][f.start[1:n]], rtol=1e-9, atol=1e-9),
         'cycle-log-altitude', 'the altitude log is not the altitude at the start of each guidance cycle')
    need(n == f.k_exit, 'cycle-log-phase', 'the altitude log has %d entries for %d cycles of the '
         'first phase' % (n, f.k_exit))


def close(f, got, want, what):
    below = f.rec['h_km_full'] * 1e3 <= f.planet.h_thres      # above: no atmosphere is modelled
    got, want = got[below], want[below]
    if not len(want):
        return
    d = np.abs(got - want)
    lim = 2e-7 * np.maximum(np.abs(want), 1e-12 + 1e-9 * np.max(np.abs(want)))
    if np.any(d > lim):
        i = int(np.argmax(d - lim))
        raise Violation('load-of-other-state', '%s recorded at sample %d is %.10g, the state recorded '
                        'there gives %.10g' % (what, i, got[i], want[i]))
