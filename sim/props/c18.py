"""C18: the one phase change of a guided flight happens in the right cycle."""
import numpy as np

from .. import flight, ref, world
from ..core import Violation

QUICK, THOROUGH = 72, 2500
RULE = ('a run is one guided flight in which the predicted apoapsis decides the phase change; distinct = '
        'different event log')
REAL, STUB = flight.REAL, flight.STUB + ['reference prediction of the exit orbit as oracle']
shrink = flight.shrink


def generate(rng, i, tier):
    c = flight.generate(rng, i, tol=1e-8)
    c['again'] = rng.random() < 0.3         # second flight of the same vehicle in another atmosphere
    c['dist0'] = world.disturbances(rng, c['s']['planet'], strength=0.5)
    t = c['s']['target']
    if rng.random() < 0.6:
        t[2] = rng.choice([1.0, t[2], 0.2 * t[1], 0.6 * t[1], t[1]])
    if i % 5 == 4:                          # the switch speed ends the first phase
        p = c['s']['glide'] if c['s']['kind'] == 'lift' else c['s']['entry']
        p[2 if c['s']['kind'] == 'lift' else 0] = round(c['s']['v0'] * rng.uniform(0.75, 1.0), 3)
    return c


class Onboard(ref.World):
    """World as the vehicle knows it."""

    def __init__(self, f):
        super().__init__(f.planet, None)
        self.table = f.v.density_mes_int
        self.cdm = f.w.cdm

    def rho(self, h):
        d = np.asarray(self.table(h), dtype=float)
        return np.where(h > self.h_thres, 0.0, np.where(h < 0, self.rho0, d))


def predict(f, y0, beta):
    """Apoapsis (km) at exit for each row of y0: full lift-up, on-board density."""
    w, s, p = Onboard(f), f.s, f.planet
    n = len(y0)
    y = y0.copy()
    last = y0.copy()
    live = np.ones(n, dtype=bool)
    sub = max(2, int(np.ceil(s['dt'] / 1.0)))
    steps = int(np.ceil((s['tmax'] + s['dt']) / s['dt'])) - 1
    trapped = np.zeros(n, dtype=bool)
    for _ in range(steps):
        idx = np.nonzero(live)[0]
        if not len(idx):
            break
        z = ref.advance(w, y[idx], np.full(len(idx), s['dt']), np.zeros(len(idx)), np.full(len(idx), beta), f.LD, sub)
        h = z[:, 0] - p.RP
        out = h > p.h_skip
        low = h < p.h_trap
        y[idx] = z
        keep = ~(out | low | ~np.isfinite(h))
        last[idx[keep]] = z[keep]
        trapped[idx[low]] = True
        live[idx[~keep]] = False
    apo, _ = ref.apsides_km(f.w, last)
    return apo, trapped, live


def run(case, out):
    s = case['s']
    v = None
    if case['again']:
        try:
            v = flight.fly({'s': s, 'dist': case['dist0']}).v
            out.probe('reused-vehicle')
        except Violation:
            raise
    f = flight.fly(case, vehicle=v)
    f.describe(out)
    f.need_log()
    r = f.rec
    ke = f.k_exit
    # ---- drag skirt: dropped once, at the switch
    h, vel = r['h_km_full'] * 1e3, r['v_kms_full'] * 1e3
    if s['kind'] == 'drag':
        q = 0.5 * f.w.rho(h) * vel ** 2
        ok = (h <= f.planet.h_thres) & (q > 0)
        b = q[ok] / (r['acc_net_g_full'][ok] * f.w.g0)
        want = f.beta_of_cycle()[f.cycle_of()][ok]
        if np.any(np.abs(b / want - 1) > 1e-5):
            i = int(np.argmax(np.abs(b / want - 1)))
            raise Violation('skirt', 'at t=%.3f s the vehicle flies at ballistic coefficient %.6g instead of %.6g '
                            '(switch at %.3f s)' % (f.t[ok][i], b[i], want[i], f.t_switch))
    # ---- what the vehicle measured
    mes = r['density_mes_array']
    e, st = f.end[1:ke], f.start[1:ke]
    true = f.w.rho(h[e]) * vel[e] ** 2 / (0.5 * (vel[st] + vel[e])) ** 2
    below = (h[e] <= f.planet.h_thres) & (h[e] >= 0)
    if len(mes) != ke or np.any(np.abs(mes[1:][below] - true[below]) > 1e-5 * true[below]):
        i = int(np.argmax(np.abs(mes[1:ke] - true[:len(mes) - 1]) / true[:len(mes) - 1])) if len(mes) == ke else 0
        raise Violation('measured-density', 'the density measured in cycle %d is not that of the air flown through' % (i + 1))
    # ---- prediction and decision
    thr = s['glide'][5] if s['kind'] == 'lift' else s['entry'][3]
    hdot = r['hdot_array']
    armed = [k for k in range(1, ke) if hdot[k] > thr]
    marginal = any(abs(hdot[k] - thr) < 1e-3 for k in range(1, ke))
    if marginal:
        return
    if armed:
        kb = armed[0]
        hs = r['h_step_array'][1:kb + 1] * 1e3
        got = np.asarray(f.v.density_mes_int(hs), dtype=float)
        if len(set(hs)) == len(hs) and np.any(np.abs(got - mes[1:kb + 1]) > 1e-6 * np.abs(mes[1:kb + 1])):
            i = int(np.argmax(np.abs(got / mes[1:kb + 1] - 1)))
            raise Violation('onboard-model', 'the on-board density at %.3f km is %.6g, the vehicle measured %.6g there'
                            % (hs[i] / 1e3, got[i], mes[1 + i]))
        beta = s['vehicle'][1] if s['kind'] == 'lift' else s['beta'][0] * s['beta'][1]
        apo, trapped, timeout = predict(f, f.y[f.end[armed]], beta)
    target, tol = s['target'][1], s['target'][2]
    decided = {}
    for i, k in enumerate(armed):
        a = apo[i]
        m = 0.5 + 4e-3 * abs(a) * (1 + abs(a) / (f.w.RP / 1e3))
        if trapped[i] or timeout[i] or not np.isfinite(a):
            decided[k] = True if (a + m < target and a > m) else None
        elif abs(a) < m or abs(a - target) < m or abs(abs(a - target) - tol) < m:
            decided[k] = None
        else:
            decided[k] = (0 < a < target) or abs(a - target) < tol
    v_switch = s['glide'][2] if s['kind'] == 'lift' else s['entry'][0]
    top = f.planet.h_skip / 1e3 - (2.0 if s['kind'] == 'lift' else 1.0)
    for k in range(1, ke):
        last = k == ke - 1
        due = decided.get(k, False)
        over = (r['h_km_full'][f.end[k]] > top and r['gamma_deg_full'][f.end[k]] > 0) or f.still[k]
        vk = r['v_kms_full'][f.end[k]]
        if abs(vk - v_switch) < 1e-9:
            continue
        if vk < v_switch:
            due = True
        if due is None:
            continue
        out.probe('decisions-checked')
        i = armed.index(k) if k in armed else None
        what = 'speed %.3f km/s, switch speed %.3f km/s' % (vk, v_switch) if vk < v_switch else ('predicted apoapsis %.1f km' % apo[i]) if i is not None else 'altitude rate %.1f m/s below the threshold' % hdot[k]
        if due and not last:
            raise Violation('late-switch', 'after cycle %d (t=%.3f s) the phase change is due (%s, target %.1f km, '
                            'tolerance %.3g km) but the first phase goes on' % (k, f.t[f.end[k]], what, target, tol))
        if not due and last and not over:
            raise Violation('early-switch', 'the phase change happens after cycle %d (t=%.3f s) where it is not due '
                            '(%s, target %.1f km, tolerance %.3g km)' % (k, f.t[f.end[k]], what, target, tol))
        if last and due:
            out.probe('switch-by-speed' if vk < v_switch else 'switch-by-prediction')
    out['nontrivial'] = bool(armed)
