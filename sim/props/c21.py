"""C21: corridor limits are where capture changes over."""
import numpy as np

from .. import flight, ref, world
from ..core import Violation

QUICK, THOROUGH = 48, 2500
RULE = ('a run is one corridor analysis (limit or width) in a disturbed atmosphere, on a fresh vehicle or after an interrupted '
        'analysis; the entry angles on either side of the limit are flown by the reference model; distinct = different event log')
REAL = ['AMAT.vehicle (corridor searches, propagation, exit orbit)', 'AMAT.planet', 'scipy odeint / solve_ivp']
STUB = flight.STUB + ['reference point-mass dynamics (RK4) and exit orbit as oracle']
ASSUMPTIONS = ['a limit is located to the requested accuracy plus 0.002 deg, the difference between the integrators']
shrink = flight.shrink

OPS = {'lift': ['over', 'over2', 'under', 'under2', 'tcw', 'tcw2', 'captured'],
       'drag': ['over', 'over2', 'under', 'under2', 'limit', 'limit2', 'tcw', 'tcw2', 'captured']}
NAME = {('lift', 'over'): 'findOverShootLimit', ('lift', 'under'): 'findUnderShootLimit', ('lift', 'tcw'): 'computeTCW',
        ('drag', 'over'): 'findOverShootLimitD', ('drag', 'under'): 'findUnderShootLimitD', ('drag', 'limit'): 'findEFPALimitD',
        ('drag', 'tcw'): 'computeTCWD'}
WIDE = {'NEPTUNE': 5.0, 'URANUS': 5.0, 'TITAN': 15.0, 'VENUS': 1.5, 'MARS': 3.0, 'EARTH': 2.0}
EPS = 2e-3


def generate(rng, i, tier):
    c = flight.generate(rng, i, tol=1e-8, calm=True)
    s = c['s']
    kind = s['kind']
    c['op'] = OPS[kind][(i // 6) % len(OPS[kind])] if i < 48 else rng.choice(OPS[kind])
    w = WIDE[s['planet']]
    c['lo'] = round(s['efpa'] - w * rng.uniform(0.5, 1.0), 3)
    c['hi'] = round(s['efpa'] + w * rng.uniform(0.5, 1.0), 3)
    if rng.random() < 0.12:                           # no limit inside
        c['lo'] = round(c['hi'] - w * rng.uniform(0.05, 0.4), 3)
    c['tol'] = rng.choice([0.05, 0.01, 1e-3, 1e-4])
    c['dt'] = rng.choice([1.0, 2.0, 5.0]) if kind == 'lift' else rng.choice([0.5, 1.0, 2.0])
    c['tsec'] = rng.choice([2400.0, 3000.0, 6000.0])
    c['target'] = round(rng.choice([s['target'][1], s['h0'] * rng.uniform(1.2, 4.0)]), 1)
    c['bank'] = rng.choice([0.0, 180.0, round(rng.uniform(-180, 180), 1)])
    c['tol_us'] = rng.choice([0.05, 0.01, 1e-3, 1e-4])
    c['us'] = [round(rng.uniform(-0.3, 0.3) * w, 3), round(rng.uniform(-0.2, 0.5) * w, 3)] if rng.random() < 0.6 else [0.0, 0.0]
    c['again'] = rng.random() < 0.5
    c['before'] = None
    if rng.random() < 0.5:
        c['before'] = [round(rng.uniform(0.96, 1.04), 4), round(rng.choice([1.0, 1.0, rng.uniform(0.7, 1.5)]), 3),
                       round(rng.choice([0.0, rng.uniform(-1.5, 1.5)]), 3), rng.random() < 0.5]
    c['interrupt'] = rng.randint(50, 4000) if rng.random() < 0.25 else 0
    if kind == 'drag':
        s['vehicle'][2] = rng.choice([0.0, 0.0, 0.2])
    return c


def outcomes(w, p, s, angles, bank, beta, LD, tsec, rotating, target):
    """+1 short of the target, -1 beyond it or not captured, 0 undecided, for each entry angle."""
    n = len(angles)
    y = np.zeros((n, 7))
    y[:, 0] = w.RP + s['h0'] * 1e3
    y[:, 1], y[:, 2] = np.radians(s['lon']), np.radians(s['lat'])
    y[:, 3] = s['v0'] * 1e3
    y[:, 4], y[:, 5] = np.radians(s['psi']), np.radians(angles)
    done = np.zeros(n, dtype=int)
    apo = np.full(n, np.nan)
    energy = np.full(n, np.nan)
    step, t = 0.5, 0.0
    bank, beta = np.full(n, np.radians(bank)), np.full(n, float(beta))
    while t < tsec and np.any(done == 0):
        k = np.nonzero(done == 0)[0]
        z = ref.advance(w, y[k], np.full(len(k), step), bank[k], beta[k], LD, 2)
        t += step
        out = z[:, 0] - w.RP > p.h_skip
        lost = (z[:, 0] - w.RP < 0.0) | (z[:, 3] < 0.5 * np.sqrt(w.GM / w.RP)) | ~np.isfinite(z[:, 0])
        for j, i in enumerate(k):
            if out[j]:
                done[i] = 2
                f = y[i:i + 1]
                if rotating:
                    r, v = f[0, 0], None
                    R, V = ref.inertial(w, f)
                    E = 0.5 * float(np.sum(V * V)) - w.GM / r
                    H = float(np.linalg.norm(np.cross(R, V)))
                else:
                    E = 0.5 * f[0, 3] ** 2 - w.GM / f[0, 0]
                    H = f[0, 0] * f[0, 3] * np.cos(f[0, 5])
                energy[i] = E
                if E < 0:
                    a = -w.GM / (2 * E)
                    apo[i] = (a * (1 + np.sqrt(max(0.0, 1 + 2 * E * H * H / w.GM ** 2))) - w.RP) / 1e3
                else:
                    apo[i] = np.inf
            elif lost[j]:
                done[i] = 3
                apo[i] = energy[i] = -np.inf
            else:
                y[i] = z[j]
    sign = np.where(done == 0, 0, np.where(apo >= target, -1, 1))
    return sign, apo, energy


def betas(v, s, op):
    """Ballistic coefficient and L/D the analysis has to use."""
    if s['kind'] == 'lift':
        return s['vehicle'][1], s['vehicle'][2]
    op = op.rstrip('2')
    if op == 'over':
        return s['beta'][0], 0.0
    if op == 'under':
        return s['beta'][0] * s['beta'][1], 0.0
    return s['vehicle'][1], 0.0


def fresh(case):
    s = case['s']
    atm = world.SimAtmosphere(s['planet'], case['dist'])
    return world.make_vehicle(s, world.make_planet(s['planet'], atm)), atm


def search(v, case, op, lo, hi, tol=None):
    name = NAME[(case['s']['kind'], op.rstrip('2'))] + ('2' if op.endswith('2') else '')
    return getattr(v, name)(case['tsec'], case['dt'], lo, hi, tol or case['tol'], case['target'])


def run(case, out):
    s, op = case['s'], case['op']
    v, atm = fresh(case)
    p = v.planetObj
    w = flight.reference(s, p, atm.pure)
    if case['interrupt']:
        atm.interrupt_at = atm.calls + case['interrupt']
        try:
            search(v, case, 'over', case['lo'], case['hi'])
        except world.SimInterrupt:
            out.fault('interrupt')
        atm.interrupt_at = None
    if case['before']:                                # an earlier search of the same kind, for another entry speed, air or target
        a, b, air, turn = case['before']
        v.setInitialState(s['h0'], s['lon'], -s['lat'] if turn else s['lat'], s['v0'] * a, 180.0 - s['psi'] if turn else s['psi'],
                          s['efpa'], 0.0, 0.0)
        if air:
            atm.dist = atm.dist + [{'k': 'bias', 'a': air}]
        part = 'under' if op.startswith('tcw') or op == 'captured' else op.rstrip('2')
        search(v, dict(case, target=round(case['target'] * b, 1)), part + ('2' if op.endswith('2') else ''), case['lo'], case['hi'],
               max(case['tol'], 1e-2))
        world.set_state(v, s)
        if air:
            atm.dist = atm.dist[:-1]
        out.fault('earlier-search')
    out.probe('%s-%s' % (s['kind'], op))
    for d in case['dist']:
        out.fault('density-' + d['k'])
    lo, hi, target = case['lo'], case['hi'], case['target']
    if op == 'captured':
        g = 0.5 * (lo + hi)
        v.setInitialState(s['h0'], s['lon'], s['lat'], s['v0'], s['psi'], g, 0.0, 0.0)
        ans = v.isCaptured(case['tsec'], case['dt'], case['bank'])
        sg, apo, E = outcomes(w, p, s, np.array([g - EPS, g, g + EPS]), case['bank'], s['vehicle'][1], s['vehicle'][2], case['tsec'], False, target)
        out.event('captured', ans)
        out['nontrivial'], out['key'] = True, out['log']
        if np.all(sg != 0) and (np.all(E < 0) or np.all(E >= 0)):
            want = -1.0 if E[1] < 0 else 1.0
            out.probe('captured' if want < 0 else 'not-captured')
            if ans != want:
                raise Violation('captured', 'isCaptured says %r at %.4f deg; the vehicle ends with an energy of %.6g J/kg'
                                % (ans, g, E[1]))
        return
    parts = ['over', 'under'] if op.startswith('tcw') else [op.rstrip('2')]
    rot = op.endswith('2')
    found = {}
    for part in parts:
        a, b, tol = lo, hi, case['tol']
        if part == 'under' and op.startswith('tcw') and s['kind'] == 'lift':
            a, b, tol = round(lo + case['us'][0], 3), round(hi + case['us'][1], 3), case['tol_us']
        x, flag = search(v, case, part + ('2' if rot else ''), a, b, tol)
        out.event(part, float(x), float(flag))
        found[part] = float(x)
        bank = 180.0 if (part == 'over' and s['kind'] == 'lift') else 0.0
        beta, LD = betas(v, s, part)
        ang = [a - EPS, a + EPS, b - EPS, b + EPS] + ([x - tol - EPS, x + EPS] if flag else [])
        sg, apo, E = outcomes(w, p, s, np.array(ang), bank, beta, LD, case['tsec'], rot, target)
        ends = sg[:4]
        if flag:
            if not a <= x <= b:
                raise Violation('limit-outside', '%s gives %.6f deg, outside the search interval %.3f to %.3f' % (part, x, a, b))
            if np.all(sg[4:] != 0) and x - tol - EPS > a and x + EPS < b:
                out.probe('limits-checked')
                if not (sg[4] == 1 and sg[5] == -1):
                    raise Violation('limit-wrong', '%s%s limit for apoapsis %.1f km: %.6f deg within %g deg, but the apoapsis at exit is '
                                    '%.1f km from %.6f deg and %.1f km from %.6f deg'
                                    % (part, ' (rotating)' if rot else '', target, x, tol, apo[4], ang[4], apo[5], ang[5]))
        if np.all(ends != 0) and ends[0] == ends[1] and ends[2] == ends[3]:
            inside = bool(ends[0] != ends[2])
            out.probe('limit-inside' if inside else 'limit-outside')
            if bool(flag) != inside:
                raise Violation('limit-flag', '%s: flag %r, but the apoapsis at exit is %.1f km from %.3f deg and %.1f km from %.3f deg '
                                '(target %.1f km)' % (part, flag, apo[1], a, apo[2], b, target))
        if flag and case['again']:
            out.probe('short-interval')
            z, again = search(v, case, part + ('2' if rot else ''), x - 1.5 * tol, x, 4 * tol)
            if not again or not x - 1.5 * tol <= z <= x:
                raise Violation('limit-short-interval', '%s limit %.8f deg within %g, but none is found from %.8f deg to there' % (part, x, tol, x - 1.5 * tol))
    if op.startswith('tcw'):
        u, _ = fresh(case)
        name = NAME[(s['kind'], 'tcw')] + ('2' if rot else '')
        head = (case['tsec'], case['dt'], lo, hi)
        tcw = getattr(u, name)(*(head + ((a, b, case['tol'], case['tol_us'], target) if s['kind'] == 'lift' else (case['tol'], target))))
        out.event('tcw', float(tcw))
        if abs(float(tcw) - (found['over'] - found['under'])) > 1e-6:
            raise Violation('width', 'corridor width %.6f deg, but the limits are %.6f and %.6f deg' % (tcw, found['over'], found['under']))
    out['nontrivial'], out['key'] = True, out['log']
