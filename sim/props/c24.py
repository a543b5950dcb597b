"""C24: spacecraft separated by a deflection maneuver, flown to their arrivals."""
import copy

import numpy as np

from ..core import Violation
from . import c23
from .c22 import Orbit, angle

QUICK, THOROUGH = 5000, 150000
RULE = ('a run is a history of 1 to 4 deflection maneuvers of random arrivals, some of them interrupted at any line and repeated; both spacecraft of each are flown '
        'from the maneuver to their arrival; distinct = different event log')
REAL = ['AMAT.maneuver', 'AMAT.approach', 'AMAT.planet']
STUB = ['the flight from the maneuver to arrival: two-body motion in vectors, in universal time of the simulation']
ASSUMPTIONS = ['the planet attracts as a point mass and nothing else acts between maneuver and arrival (as AMAT documents)']
PLANETS = c23.TARGETS


def target(rng, entry):
    return {'rp': round(rng.uniform(1.0001, 1.02) if entry else 10 ** rng.uniform(0.01, 0.9), 5), 'psi': round(rng.uniform(0, 2 * np.pi), 5),
            'h': round(rng.uniform(0.005, 0.06), 5) if entry else None}


def prepare():
    """Load what every run needs before the runs are forked."""
    try:
        import AMAT.maneuver    # noqa
    except Exception:                                     # noqa: the runs report it
        pass


def generate(rng, i, tier):
    c = {'ops': []}
    for n in range(rng.randint(1, 4)):
        kind = ['PO', 'PP', 'OO'][(i + n) % 3]
        z = rng.uniform(-0.97, 0.97)
        op = {'k': kind, 'planet': rng.choice(PLANETS), 'vinf': [round(rng.uniform(1.0, 22.0), 4), round(z, 6), round(rng.uniform(0, 2 * np.pi), 6)],
              'a': target(rng, kind != 'OO'), 'b': target(rng, kind == 'PP'), 'r': round(10 ** rng.uniform(1.5, 3.8), 2)}
        if rng.random() < 0.2:
            op['b']['psi'] = round(op['a']['psi'] + rng.choice([np.pi, 0.001, -0.01]), 5)
        if n and rng.random() < 0.5:                      # the same arrival again
            op['planet'], op['vinf'] = c['ops'][-1]['planet'], c['ops'][-1]['vinf']
        if n and rng.random() < 0.4:                      # an earlier maneuver again, with one thing different
            old = copy.deepcopy(rng.choice(c['ops']))
            old.pop('stop', None)
            x = rng.choice(['planet', 'vinf', 'a', 'b', 'r', 'vinf', 'speed'])
            if x in 'ab':
                y = rng.choice([z for z in old[x] if old[x][z] is not None])
                new = target(rng, old[x]['h'] is not None)
                old[x][y] = new[y]
            elif x == 'speed':
                old['vinf'] = [op['vinf'][0]] + old['vinf'][1:]
            else:
                old[x] = op[x]
            op = old
        if rng.random() < 0.25:
            op['stop'] = int(10 ** rng.uniform(0, 2.7))
        c['ops'].append(op)
    return c


def shrink(case):
    for k in range(len(case['ops'])):
        if len(case['ops']) > 1:
            c = copy.deepcopy(case)
            del c['ops'][k]
            yield c
        if 'stop' in case['ops'][k]:
            c = copy.deepcopy(case)
            del c['ops'][k]['stop']
            yield c


def fly(mu, R, V, t):
    """State after the time t of two-body motion on a hyperbola (universal variable, bisection)."""
    r0, v0 = np.linalg.norm(R), np.linalg.norm(V)
    al = 2 / r0 - v0 * v0 / mu                           # 1/a, negative
    rv = R @ V / np.sqrt(mu)

    def stumpff(z):
        s = np.sqrt(-z)
        if s < 1e-3:
            return 0.5 - z / 24, 1 / 6 - z / 120
        return (np.cosh(s) - 1) / (-z), (np.sinh(s) - s) / s ** 3

    def time(x):
        C, S = stumpff(al * x * x)
        return (rv * x * x * C + (1 - al * r0) * x ** 3 * S + r0 * x) / np.sqrt(mu)
    lo, hi = 0.0, 1e3
    while time(hi) < t:
        lo, hi = hi, 2 * hi
    for _ in range(100):
        m = 0.5 * (lo + hi)
        lo, hi = (m, hi) if time(m) < t else (lo, m)
    x = 0.5 * (lo + hi)
    C, S = stumpff(al * x * x)
    f, g = 1 - x * x * C / r0, t - x ** 3 * S / np.sqrt(mu)
    X = f * R + g * V
    r = np.linalg.norm(X)
    fd, gd = np.sqrt(mu) / r / r0 * (al * x ** 3 * S - x), 1 - x * x * C / r
    return X, fd * R + gd * V


def run(case, out):
    kept = []
    for op in case['ops']:
        u = np.array([np.sqrt(1 - op['vinf'][1] ** 2) * np.cos(op['vinf'][2]), np.sqrt(1 - op['vinf'][1] ** 2) * np.sin(op['vinf'][2]), op['vinf'][1]])
        vinf = op['vinf'][0] * u
        m = maneuver(op, vinf, out)
        if m is None:
            continue
        if not np.array_equal(vinf, op['vinf'][0] * u):
            raise Violation('input-changed', 'the arrival velocity passed in was changed')
        if judge(op, m, u, out):
            out['nontrivial'] = True
        kept.append((m, c23.snapshot(m)))
        for x, snap in kept:
            name = c23.changed(x, snap)
            if name:
                raise Violation('result-changed', '%s of an earlier maneuver changed' % name)
    out['key'] = out['log']


def maneuver(op, vinf, out):
    from AMAT import maneuver as M
    from AMAT.planet import Planet
    RP = Planet(op['planet']).RP
    a, b, r = op['a'], op['b'], op['r']
    if op['k'] == 'PO':
        f = lambda: M.ProbeOrbiterDeflection(op['planet'], vinf, a['rp'] * RP, a['psi'], (a['rp'] - 1 + a['h']) * RP, b['rp'] * RP, b['psi'], r)
    elif op['k'] == 'PP':
        f = lambda: M.ProbeProbeDeflection(op['planet'], vinf, a['rp'] * RP, a['psi'], (a['rp'] - 1 + a['h']) * RP,
                                           b['rp'] * RP, b['psi'], (b['rp'] - 1 + b['h']) * RP, r)
    else:
        f = lambda: M.OrbiterOrbiterDeflection(op['planet'], vinf, a['rp'] * RP, a['psi'], b['rp'] * RP, b['psi'], r)
    if 'stop' in op and c23.stopped(f, op['stop']):
        out.fault('interrupt')
    return f()


NAMES = {'PO': ('probe', 'space'), 'PP': ('probe1', 'probe2'), 'OO': ('space1', 'space2')}


def judge(op, m, u, out):
    pl = m.planetObj
    S = c23.frame(pl) @ u
    vi = op['vinf'][0] * 1e3
    if np.hypot(S[0], S[1]) < 0.02:
        return False
    arr = []
    for side, name in zip('ab', NAMES[op['k']]):
        rp, psi = op[side]['rp'] * pl.RP, op[side]['psi']
        h = hyperbola(pl, S, vi, rp, psi)
        if h is None:
            return False
        arr.append((side, name, rp, h))
    r = op['r'] * pl.RP
    R = np.asarray(m.r_vec_dv, dtype=float)
    first = arr[0][3]
    c23.near('maneuver', 'distance of the maneuver', np.linalg.norm(R), r, 1e-8 * r)
    th = -np.arccos(np.clip((first.p / r - 1) / first.e, -1, 1))
    c23.near('maneuver', 'place of the maneuver', R, first.pos(th), 2e-6 * r)
    V = [np.asarray(getattr(m, 'v_vec_dv_' + name), dtype=float) for _, name, _, _ in arr]
    c23.near('maneuver', 'velocity change', m.dv_maneuver_vec, V[1] - V[0], 1e-9 * vi)
    c23.near('maneuver', 'cost', m.dv_maneuver_mag, np.linalg.norm(V[1] - V[0]), 1e-9 * vi)
    known = set()
    for (side, name, rp, h), v in zip(arr, V):
        out.event(op['k'], name, [round(float(x), 6) for x in v])
        ap = getattr(m, name)
        approach(op, pl, ap, h, rp, side, known, out)
        tof = float(getattr(m, 'TOF_' + name)) * 86400.0
        out['sim_s'] += tof
        if name == 'probe2' and hyper_angle(pl, m, R, v, h, rp, r, tof):
            if 'probe2' not in known:
                known.add('probe2')
                out.fail('known-probe2-arrival', 'the second of two probes is sent off with the velocity for the angle of its own approach, not for that from '
                         'the maneuver to its periapsis: it passes %.1f km from its target' % (miss(pl, R, v, h, rp, tof) / 1e3))
            continue
        if not (tof > 0 and np.all(np.isfinite(v))):
            raise Violation('flight', 'time of flight %r, velocity %r' % (tof, v))
        X, W = fly(pl.GM, R, v, tof)
        if not np.linalg.norm(X - rp * h.P) <= 2e-7 * r + 1e-5 * rp:
            raise Violation('arrival', '%s of %s is %.3f km from its periapsis (radius %.1f km) after the time of flight of %.4f days'
                            % (name, op['k'], np.linalg.norm(X - rp * h.P) / 1e3, rp / 1e3, tof / 86400))
        E = v @ v - 2 * pl.GM / np.linalg.norm(R)
        if name != 'probe2' and abs(E - vi * vi) > 1e-5 * vi * vi:
            raise Violation('arrival', '%s has the speed at infinity %.3f m/s instead of %.3f' % (name, np.sqrt(abs(E)), vi))
        if side == 'a' and abs(X @ W) > 1e-4 * np.linalg.norm(X) * np.linalg.norm(W):
            raise Violation('arrival', '%s is not at periapsis after its time of flight' % name)
        out.probe('arrived-' + op['k'])
    return True


def miss(pl, R, v, h, rp, tof):
    try:
        return np.linalg.norm(fly(pl.GM, R, v, tof)[0] - rp * h.P)
    except Exception:                                     # noqa
        return float('nan')


def hyper_angle(pl, m, R, v, h, rp, r, tof):
    """Is this the recorded defect, and nothing else?"""
    th = np.arccos(np.clip((h.p / r - 1) / h.e, -1, 1))
    f = 1 - rp / h.p * (1 - np.cos(th))
    g = r * rp / np.sqrt(pl.GM * h.p) * np.sin(th)
    bad = (rp * h.P - f * R) / g
    if np.linalg.norm(v - bad) > 1e-6 * np.linalg.norm(bad):
        return False
    good = np.arccos(np.clip(h.P @ R / np.linalg.norm(R), -1, 1))
    if abs(good - th) < 1e-9:
        return False
    H = 2 * np.arctanh(np.sqrt((h.e - 1) / (h.e + 1)) * np.tan(0.5 * th))
    T = np.sqrt(-h.a ** 3 / pl.GM) * (h.e * np.sinh(H) - H)
    c23.near('time-of-flight', 'time of flight of the second probe', tof, T, 1e-6 * T)
    return True


def hyperbola(pl, S, vi, rp, psi):
    """Arrival with direction S, speed vi, periapsis at angle psi from south to east around S."""
    e = 1 + rp * vi ** 2 / pl.GM
    east = np.array([-S[1], S[0], 0.0]) / np.hypot(S[0], S[1])
    south = np.cross(east, S)
    b = np.arccos(1 / e)                                  # between periapsis and the departing asymptote's reverse
    P = np.cos(b) * S + np.sin(b) * (np.cos(psi) * south + np.sin(psi) * east)
    # motion: incoming along S, so at periapsis the velocity is what is left of S across P
    Q = S - (S @ P) * P
    Q = Q / np.linalg.norm(Q)
    h = Orbit(pl.GM, rp * P, np.sqrt(vi ** 2 + 2 * pl.GM / rp) * Q)
    if not 0.02 < h.elements()[0] < np.pi - 0.02 or e < 1.0005:
        return None
    return h


def approach(op, pl, ap, h, rp, side, known, out):
    """The reported approach, and the entry state if there is one."""
    c23.near('approach', 'periapsis', ap.rp_vec_bi, rp * h.P, 1e-6 * rp)
    if op[side]['h'] is None:
        c23.near('approach', 'velocity at periapsis', ap.v_vec_rp_bi, h.vel(0.0), 2e-6 * np.linalg.norm(h.vel(0.0)))
        return
    r = rp + op[side]['h'] * pl.RP
    th = -np.arccos((h.p / r - 1) / h.e)
    R, V = h.pos(th), h.vel(th)
    rn, vn = np.linalg.norm(R), np.linalg.norm(V)
    up = R / rn
    c23.near('entry', 'position at entry', ap.r_vec_entry_bi, R, 2e-6 * rn)
    c23.near('entry', 'velocity at entry', ap.v_vec_entry_bi, V, 3e-6 * vn)
    c23.near('entry', 'speed at entry', ap.v_entry_inertial_mag, vn, 1e-7 * vn)
    c23.near('entry', 'angle at entry', ap.gamma_entry_inertial, np.arcsin(up @ V / vn), 1e-6)
    c23.near('entry', 'latitude at entry', ap.latitude_entry_bi, np.arcsin(up[2]), 1e-5)
    if np.hypot(up[0], up[1]) < 0.02:
        return
    if angle(float(ap.longitude_entry_bi), np.arctan2(up[1], up[0])) > 1e-4:
        raise Violation('entry', 'longitude at entry is %.6f, not %.6f' % (ap.longitude_entry_bi, np.arctan2(up[1], up[0])))
    A = V - np.cross([0.0, 0.0, pl.OMEGA], R)
    an = np.linalg.norm(A)
    c23.near('entry', 'velocity relative to the air', ap.v_vec_entry_atm, A, 3e-6 * vn)
    c23.near('entry', 'speed relative to the air', ap.v_entry_atm_mag, an, 3e-6 * vn)
    c23.near('entry', 'angle relative to the air', ap.gamma_entry_atm, np.arcsin(up @ A / an), 3e-6 * vn / an)
    out.probe('entry-state')
    flat = A / an - (up @ A / an) * up
    east = np.array([-up[1], up[0], 0.0]) / np.hypot(up[0], up[1])
    want = np.arctan2(flat @ np.cross(up, east), flat @ east)
    got = float(ap.heading_entry_atm)
    if angle(got, want) > 1e-4:
        if abs(np.cos(got) - flat @ east) > 2e-5:
            raise Violation('heading', 'heading at entry is %.6f deg, not %.6f' % (np.degrees(got), np.degrees(want)))
        if 'heading' not in known:
            known.add('heading')
            out.fail('known-heading', 'the heading at entry is the arc cosine of an unscaled projection: %.6f instead of %.6f deg'
                     % (np.degrees(got), np.degrees(want)))
