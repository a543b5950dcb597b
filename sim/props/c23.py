"""C23: relay contacts and data volume over simulated time."""
import copy
import os
import sys

import numpy as np

from .. import ephem, world
from ..core import Violation
from .c22 import Orbit, angle

QUICK, THOROUGH = 2000, 60000
RULE = ('a run is one arrival, one or two orbiters from it, and a history of 3 to 9 operations in simulated time (timed orbits, contacts of landers, '
        'orbiters and planets, schedules and data links) under interrupts at any line of AMAT and any call in the ephemeris reader, and missing, truncated or too short ephemeris files; '
        'distinct = different event log')
REAL = ['AMAT.approach', 'AMAT.orbiter PropulsiveOrbiter', 'AMAT.visibility', 'AMAT.telecom', 'AMAT.planet', 'astropy time and ephemeris reader', 'jplephem']
STUB = ['solar system: a kernel file with made-up motion of all planets', 'two-body motion and rotating planets in vectors as oracle']
ASSUMPTIONS = ['a lander starts at body-inertial longitude 0, and an orbiter at periapsis, at time 0 (documented conventions of AMAT)']
TARGETS = ['VENUS', 'EARTH', 'MARS', 'JUPITER', 'SATURN', 'TITAN', 'URANUS', 'NEPTUNE']
DAYS = 40.0
# Julian date of 2034-01-01 00:00:00
JD0 = 2463963.5 + 0.0


def prepare():
    """Load what every run needs before the runs are forked."""
    try:
        import AMAT.visibility, AMAT.telecom, AMAT.orbiter, AMAT.approach    # noqa
    except Exception:                                     # noqa: the runs report it
        pass


def generate(rng, i, tier):
    z = rng.uniform(-0.97, 0.97)
    a = rng.uniform(0, 2 * np.pi)
    c = {'planet': TARGETS[i % 8] if rng.random() < 0.9 else rng.choice(TARGETS),
         'vinf': [round(rng.uniform(1.0, 22.0), 4), round(z, 6), round(a, 6)],
         'rp': round(rng.uniform(1.005, 2.5) if rng.random() < 0.8 else rng.uniform(2.5, 12), 4),
         'psi': round(rng.uniform(0, 2 * np.pi), 5),
         'apo': [round(10 ** rng.uniform(-0.7, 1.9), 4) for _ in range(rng.choice([1, 1, 2]))],
         'eph': [rng.randrange(10 ** 6), rng.randrange(10 ** 6)], 'own': rng.random() < 0.4, 'ops': []}
    for _ in range(rng.randint(3, 9)):
        k = rng.choice(['timed', 'orbit', 'lander', 'lander', 'lander', 'relay', 'relay', 'relay', 'direct', 'direct', 'link', 'link', 'link'])
        op = {'k': k, 'o': rng.randrange(len(c['apo'])), 't': round(10 ** rng.uniform(-1, 0.7), 4), 'n': rng.choice([2, 11, 41, 101, 101, 201, rng.randrange(3, 80), rng.choice([601, 1600, 2001])]),
              'lat': rng.choice([0.0, round(rng.uniform(-90, 90), 3), round(rng.uniform(-90, 90), 3), 90.0, -90.0]),
              'to': rng.choice([x for x in TARGETS if x != c['planet'] and not {x, c['planet']} <= {'SATURN', 'TITAN'}]),
              'day': round(rng.uniform(-0.9, 0.9) * DAYS, 3), 'e': rng.randrange(2)}
        prev = [x for x in c['ops'] if x['k'] != 'link']
        if prev and k != 'link' and rng.random() < 0.4:   # an earlier operation again, with one or two things different
            op = dict(rng.choice(prev), **{x: op[x] for x in rng.sample(['k', 'o', 't', 'n', 'lat', 'to', 'day', 'e'], rng.choice([1, 1, 2]))})
            k = op['k']
            for x in ('stop', 'inside', 'file', 'frac'):
                op.pop(x, None)
            if rng.random() < 0.3:
                op['t'] = round(op['t'] * rng.uniform(0.97, 1.03), 4)
        if k == 'link':
            op['back'] = rng.randrange(3)
            op['win'] = [[round(x, 4) for x in sorted((rng.uniform(-0.1, 1.1), rng.uniform(-0.1, 1.1)))] for _ in range(rng.choice([0, 1, 1, 2, 3, 5]))]
            if op['win'] and rng.random() < 0.3:
                op['win'][0] = [0.0, 1.0]
            op['par'] = [round(rng.uniform(0.3, 35), 3), round(rng.uniform(1, 100), 2), round(rng.uniform(20, 500), 1), round(10 ** rng.uniform(3, 9.5), 1),
                         round(rng.uniform(0, 4), 2), round(10 ** rng.uniform(-1, 4), 3), round(rng.uniform(0.1, 6), 2)]
            op['ant'] = [[round(rng.uniform(0.2, 5), 2), round(rng.uniform(0.3, 0.8), 2)] if rng.random() < 0.5 else round(rng.uniform(0.5, 80), 2)
                         for _ in range(2)]
            op['loss'] = None if rng.random() < 0.5 else [round(rng.uniform(0, 3), 2) for _ in range(4)]
        if k != 'link' and rng.random() < 0.25:
            op['stop'] = int(10 ** rng.uniform(0, 3.7))
            if k in ('relay', 'direct') and rng.random() < 0.5:
                op['stop'], op['inside'] = rng.randint(1, 30), True
        elif k in ('relay', 'direct') and rng.random() < 0.2:
            op['file'] = rng.choice(['missing', 'truncated', 'body', 'date'])
            op['frac'] = round(rng.random(), 3)
        c['ops'].append(op)
    return c


def shrink(case):
    for k in range(len(case['ops'])):
        c = copy.deepcopy(case)
        del c['ops'][k]
        yield c
    for k, op in enumerate(case['ops']):
        for name in ('stop', 'file'):
            if name in op:
                c = copy.deepcopy(case)
                del c['ops'][k][name]
                yield c
        if op['n'] > 11:
            c = copy.deepcopy(case)
            c['ops'][k]['n'] = 11
            yield c
    if case['own']:
        yield dict(case, own=False)
    if len(case['apo']) > 1:
        c = copy.deepcopy(case)
        c['apo'] = c['apo'][:1]
        for op in c['ops']:
            op['o'] = 0
        yield c


class Stop(KeyboardInterrupt):
    pass


def stopped(f, k, inside=False):
    """Run f, interrupted at its k-th line in AMAT (inside: at the k-th call within the ephemeris reader); True if it got that far."""
    left = [k]
    top = os.path.join(world.REPO, 'AMAT') + os.sep

    def reader(frame, event, arg):
        name = frame.f_code.co_filename
        if 'jplephem' in name or name.endswith(os.path.join('coordinates', 'solar_system.py')) and 'posvel' in frame.f_code.co_name:
            left[0] -= 1
            if left[0] <= 0:
                sys.settrace(None)
                raise Stop('injected')

    def local(frame, event, arg):
        if event == 'line':
            left[0] -= 1
            if left[0] <= 0:
                sys.settrace(None)
                raise Stop('injected')
        return local

    def start(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(top) else None
    sys.settrace(reader if inside else start)
    try:
        f()
    except Stop:
        return True
    finally:
        sys.settrace(None)
    return False


def kepler(e, M):
    """Eccentric anomaly by bisection (vectorised)."""
    M = np.asarray(M, dtype=float)
    lo, hi = M - e - 1e-9, M + e + 1e-9
    for _ in range(70):
        m = 0.5 * (lo + hi)
        up = m - e * np.sin(m) < M
        lo, hi = np.where(up, m, lo), np.where(up, hi, m)
    return 0.5 * (lo + hi)


def timed(o, t):
    """Positions at times after periapsis."""
    E = kepler(o.e, t * np.sqrt(o.mu / o.a ** 3))
    return o.a * ((np.cos(E) - o.e)[:, None] * o.P + (np.sqrt(1 - o.e ** 2) * np.sin(E))[:, None] * o.Q)


def frame(pl):
    """Rows: axes of the body-inertial frame in ICRF."""
    z = np.array([np.cos(pl.d0) * np.cos(pl.a0), np.cos(pl.d0) * np.sin(pl.a0), np.sin(pl.d0)])
    x = np.array([-np.sin(pl.a0), np.cos(pl.a0), 0.0])
    return np.array([x, np.cross(z, x), z])


def site(pl, lat, t):
    """Zenith of a lander: the planet turns at its rate."""
    a = pl.OMEGA * t
    la = np.radians(lat)
    return np.stack([np.cos(la) * np.cos(a), np.cos(la) * np.sin(a), np.full(len(t), np.sin(la))], 1)


def near(cls, name, got, want, tol):
    got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    if got.shape != want.shape:
        raise Violation(cls, '%s has shape %r instead of %r' % (name, got.shape, want.shape))
    bad = ~(np.abs(got - want) <= tol)
    if np.any(bad):
        k = int(np.argmax(bad.ravel()))
        raise Violation(cls, '%s: value %d is %.10g, simulated motion gives %.10g' % (name, k, got.ravel()[k], want.ravel()[k]))


def flags(cls, name, got, want, sure):
    got = np.asarray(got)
    if got.shape != want.shape:
        raise Violation(cls, '%s has shape %r instead of %r' % (name, got.shape, want.shape))
    bad = sure & (got.astype(bool) != want)
    if np.any(bad):
        k = int(np.argmax(bad))
        raise Violation(cls, '%s: entry %d is %s, simulated motion gives %s' % (name, k, bool(got[k]), bool(want[k])))


def snapshot(x):
    return {k: np.array(v, copy=True) for k, v in vars(x).items() if isinstance(v, (np.ndarray, float, int, np.floating))}


def changed(x, snap):
    for k, v in snap.items():
        if not np.array_equal(np.asarray(vars(x).get(k)), v, equal_nan=True):
            return k
    return None


FIXED = ['a', 'e', 'h', 'i', 'OMEGA', 'omega', 'rp', 'ra', 'vp', 'DV_OI_mag']


def run(case, out):
    from AMAT.approach import Approach
    from AMAT.orbiter import PropulsiveOrbiter
    from AMAT.planet import Planet
    from astropy.coordinates import solar_system_ephemeris
    pl = Planet(case['planet'])
    d = world.scratch()
    eph = [ephem.Ephemeris(s, JD0, DAYS) for s in case['eph']]
    path = [os.path.join(d, 'eph%d.bsp' % k) for k in range(2)]
    size = [e.write(p) for e, p in zip(eph, path)]
    if case['own']:                                       # the user's own choice, outside AMAT
        solar_system_ephemeris.set(path[0])
    mine = solar_system_ephemeris.get()
    # ----------------------------------------------------------- arrival
    s, z, a = case['vinf']
    u = np.array([np.sqrt(1 - z * z) * np.cos(a), np.sqrt(1 - z * z) * np.sin(a), z])
    vinf = s * u
    given = vinf.copy()
    rp = case['rp'] * pl.RP
    S = frame(pl) @ u
    ap = Approach(case['planet'], vinf, rp, case['psi'])
    R, V = np.asarray(ap.r_vec_rp_bi), np.asarray(ap.v_vec_rp_bi)
    hyp = arrival(case, pl, S, s * 1e3, rp, R, V, out)
    if hyp is None:
        out.probe('degenerate')
        return
    out['nontrivial'] = True
    orbs, want = [], []
    for apo in case['apo']:
        ra = max(rp, pl.RP) * (1 + apo)
        q = PropulsiveOrbiter(ap, (ra - pl.RP) / 1e3)
        o = Orbit(pl.GM, rp * hyp.P, np.sqrt(2 * pl.GM / rp - 2 * pl.GM / (rp + ra)) * hyp.Q)
        near('insertion', 'the insertion maneuver', q.DV_OI_vec, V - o.vel(0.0), 1e-5 * np.linalg.norm(V))
        near('insertion', 'the cost of the insertion', q.DV_OI_mag, np.linalg.norm(V) - np.linalg.norm(o.vel(0.0)), 1e-6 * np.linalg.norm(V))
        near('insertion', 'the size of the orbit', q.a, 0.5 * (ra + rp), 1e-9 * ra)
        circle(q, o, pl, 601)
        orbs.append(q)
        want.append(o)
    elements = [{k: float(getattr(q, k)) for k in FIXED} for q in orbs]
    # ------------------------------------------------------------ history
    done = []                                             # (kind, result, snapshot, duration)
    for op in case['ops']:
        o, q = want[op['o']], orbs[op['o']]
        T = 2 * np.pi * np.sqrt(o.a ** 3 / o.mu) * op['t']
        n, k = op['n'], op['k']
        out.probe('op-' + k)
        act = action(case, op, q, T, path, d, size, done)
        if act is None:
            continue
        if 'stop' in op and k != 'link':
            if stopped(act[0], op['stop'], op.get('inside')):
                out.fault('interrupt-in-ephemeris' if op.get('inside') else 'interrupt')
                out.event('stop', k)
            if op.get('inside'):
                selected(mine, k)
            else:           # Python itself cannot promise the end of a `with` for an interrupt on its very line
                solar_system_ephemeris.set(mine)
            continue
        if 'file' in op and k in ('relay', 'direct'):
            try:
                r = act[0]()
            except Exception:                             # noqa: any error is a report of the trouble
                selected(mine, k)
                out.fault('ephemeris-' + op['file'])
                out.event('file', op['file'])
                continue
            if op['file'] != 'truncated':
                raise Violation('ephemeris-' + op['file'], 'a result with an ephemeris which does not hold what is needed (%s)' % op['file'])
        else:
            r = act[0]()
        e = eph[op['e']]
        if k == 'timed':
            near('time', 'times of the orbit', q.t_array, np.linspace(0, T, n), 1e-9 * T)
            near('position', 'timed orbit', xyz(q) * pl.RP, timed(o, np.linspace(0, T, n)), 2e-7 * o.a)
        elif k == 'orbit':
            circle(q, o, pl, n)
        elif k == 'lander':
            lander(r, pl, op, o, T, n)
        elif k == 'relay':
            relay(r, pl, op, o, T, n, e)
        elif k == 'direct':
            direct(r, pl, op, n, e)
        elif k == 'link':
            link(r, op, *act[1])
        if k in ('lander', 'relay', 'direct', 'link'):
            done.append((k, r, snapshot(r)))
            out.array(k, r.visible_array if k != 'link' else r.data_volume_array)
            out['sim_s'] += abs(float(np.asarray(r.t_array)[-1]))
        # what must stay
        for q2, el in zip(orbs, elements):
            for name, x in el.items():
                if not float(getattr(q2, name)) == x:
                    raise Violation('orbit-changed', '%s of an orbiter was %r and is %r after %s' % (name, x, getattr(q2, name), k))
        selected(mine, k)
    for k, r, snap in done:
        name = changed(r, snap)
        if name:
            raise Violation('result-changed', '%s of a finished %s analysis changed later' % (name, k))
    if not np.array_equal(vinf, given):
        raise Violation('input-changed', 'the arrival velocity passed in was changed')
    out['key'] = out['log']


def selected(mine, k):
    from astropy.coordinates import solar_system_ephemeris
    if solar_system_ephemeris.get() != mine:
        raise Violation('ephemeris-left', 'the ephemeris selected in the process was %r and is %r after %s' % (mine, solar_system_ephemeris.get(), k))


def arrival(case, pl, S, vi, rp, R, V, out):
    """The hyperbola through the reported periapsis state is the requested one."""
    if np.hypot(S[0], S[1]) < 0.02:
        return None
    hyp = Orbit(pl.GM, R, V)
    inc = hyp.elements()[0]
    if not 0.02 < inc < np.pi - 0.02 or hyp.e < 1.0005:
        return None
    near('arrival', 'radius of the periapsis', np.linalg.norm(R), rp, 1e-9 * rp)
    near('arrival', 'speed at infinity', np.sqrt(V @ V - 2 * pl.GM / np.linalg.norm(R)), vi, 1e-6 * np.linalg.norm(V) ** 2 / vi)
    near('arrival', 'periapsis condition', R @ V / np.linalg.norm(R) / np.linalg.norm(V), 0.0, 1e-6)
    e = 1 + rp * vi ** 2 / pl.GM
    th = -np.arccos(-1 / e)
    P = R / np.linalg.norm(R)
    inf = -np.sin(th) * P + (e + np.cos(th)) * np.cross(hyp.n, P)
    near('arrival', 'direction of arrival', inf / np.linalg.norm(inf), S, 2e-6)
    # angle of the periapsis around the direction of arrival, from south to east
    east = np.array([-S[1], S[0], 0.0]) / np.hypot(S[0], S[1])
    south = np.cross(east, S)
    if angle(np.arctan2(R @ east, R @ south), case['psi']) > 1e-6:
        raise Violation('arrival', 'the periapsis is at an angle of %.6f rad around the direction of arrival, not %.6f'
                        % (np.arctan2(R @ east, R @ south), case['psi']))
    out.array('arrival', np.concatenate([R, V]))
    return Orbit(pl.GM, rp * P, np.sqrt(vi ** 2 + 2 * pl.GM / rp) * np.cross(hyp.n, P))


def xyz(q):
    return np.stack([np.asarray(getattr(q, c + '_timed_orbit_arr'), dtype=float) for c in 'xyz'], 1)


def circle(q, o, pl, n):
    X = np.stack([np.asarray(getattr(q, c + '_orbit_arr'), dtype=float) for c in 'xyz'], 1) * pl.RP
    want = np.array([o.pos(t) for t in np.linspace(0, 2 * np.pi, n)])
    near('path', 'trajectory of the orbit', X, want, 2e-6 * o.a * (1 + o.e))


def date(op):
    """AMAT takes a date string (TDB)."""
    from astropy.time import Time
    return Time(JD0 + op['day'] + (400.0 if op.get('file') == 'date' else 0.0), format='jd', scale='tdb').iso


def jd(op):
    from astropy.time import Time
    return Time(date(op), scale='tdb').jd


def action(case, op, q, T, path, d, size, done):
    from AMAT import telecom, visibility
    k, n, p = op['k'], op['n'], case['planet']
    f = path[op['e']]
    if 'file' in op:
        f2 = os.path.join(d, 'bad%d.bsp' % len(os.listdir(d)))
        if op['file'] == 'truncated':
            with open(f, 'rb') as a, open(f2, 'wb') as b:
                b.write(a.read()[:int(op['frac'] * (size[op['e']] - 1))])
            f = f2
        elif op['file'] == 'body':
            ephem.Ephemeris(case['eph'][op['e']], JD0, DAYS).write(f2, without=op['to'] if op['frac'] < 0.5 else p)
            f = f2
        elif op['file'] == 'missing':
            f = f2
    if k == 'timed':
        return (lambda: q.compute_timed_orbit_trajectory(T, n),)
    if k == 'orbit':
        return (lambda: q.compute_orbit_trajectory(n),)
    if k == 'lander':
        return (lambda: visibility.LanderToOrbiter(p, op['lat'], q, T, n),)
    if k == 'relay':
        return (lambda: visibility.OrbiterToPlanet(op['to'], p, q, date(op), T, n, f),)
    if k == 'direct':
        return (lambda: visibility.LanderToPlanet(op['to'], p, op['lat'], date(op), n, f),)
    vis = [r for kind, r, _ in done if kind != 'link']
    if not vis:
        return None
    r = vis[-1 - op['back'] % len(vis)]
    t = np.array(r.t_array, dtype=float)
    win = [np.array(w) * t[-1] for w in op['win']]
    keep = [w.copy() for w in win]

    def go():
        freq, Pt, Ts, rng_km, other, rate, req = op['par']
        kw = {}
        for name, a in zip('tr', op['ant']):
            if isinstance(a, list):
                kw['D' + name], kw['eta_' + name] = a
            else:
                kw['G' + name + '_dBi'] = a
        if op['loss']:
            kw.update(zip(('Lt_dB', 'L_sc_dB', 'La_dB', 'L_DSN_dB'), op['loss']))
        li = telecom.Link(freq, Pt, Ts, rng_km, other, rate, req, **kw)
        sch = telecom.Schedule(t[-1], len(t), win)
        li.compute_data_volume(r, sch)
        if any(not np.array_equal(a, b) for a, b in zip(win, keep)):
            raise Violation('input-changed', 'the transmit windows passed in were changed')
        return li
    return go, (r, t, keep)


def horizon(name, r, zen, los, tol, lander=True):
    """Beta, elevation and visibility of unit vectors `los` at zeniths `zen`; tol in degrees."""
    c = np.clip(np.sum(zen * los, 1), -1, 1)
    beta = np.degrees(np.arctan2(np.linalg.norm(np.cross(zen, los), axis=1), c))
    near('elevation', name + ' beta', r.beta_array, beta, tol)
    near('elevation', name + ' elevation', r.elevation_array, np.maximum(0.0, 90 - beta), tol)
    flags('visible', name + ' visibility', r.visible_array, beta < 90, np.abs(beta - 90) > tol)


def lander(r, pl, op, o, T, n):
    t = np.linspace(0, T, n)
    near('time', 'times of the contact', r.t_array, t, 1e-9 * T)
    X = timed(o, t)
    zen = site(pl, op['lat'], t)
    los = X - pl.RP * zen
    rng = np.linalg.norm(los, axis=1)
    near('range', 'range of the lander', r.range_array, rng, 3e-7 * o.a)
    near('position', 'orbiter in the contact', np.stack([r.orbiter_pos_x_bi_arr, r.orbiter_pos_y_bi_arr, r.orbiter_pos_z_bi_arr], 1), X, 2e-7 * o.a)
    near('position', 'lander in the contact', np.stack([r.lander_pos_x_bi_arr, r.lander_pos_y_bi_arr, r.lander_pos_z_bi_arr], 1), pl.RP * zen, 1e-7 * pl.RP)
    horizon('lander to orbiter', r, zen, los / rng[:, None], 5e-6 + np.degrees(4e-7 * o.a / rng))


def sight(r, pl, op, e):
    j = jd(op)
    d = e.pos(op['to'], j) - e.pos(pl.ID, j)
    near('range', 'distance of the planets', r.range, np.linalg.norm(d) * 1e3, 1e-8 * np.linalg.norm(d) * 1e3)
    u = frame(pl) @ d / np.linalg.norm(d)
    near('direction', 'direction of the target', r.obs_tar_pos_vec_bi_unit, u, 1e-7)
    return u


def relay(r, pl, op, o, T, n, e):
    t = np.linspace(0, T, n)
    near('time', 'times of the relay', r.t_array, t, 1e-9 * T)
    u = sight(r, pl, op, e)
    X = timed(o, t) / pl.RP
    along = X @ u
    off = np.linalg.norm(X - along[:, None] * u, axis=1)
    flags('visible', 'orbiter to planet visibility', r.visible_array, ~((off < 1) & (along < 0)),
          (np.abs(off - 1) > 2e-6 * max(1.0, o.a / pl.RP)) & (np.abs(along) > 1e-5))


def direct(r, pl, op, n, e):
    t = np.linspace(0, 2 * np.pi / abs(pl.OMEGA), n)
    near('time', 'times of the direct link', r.t_array, t, 1e-9 * t[-1])
    u = sight(r, pl, op, e)
    zen = site(pl, op['lat'], t)
    horizon('lander to planet', r, zen, np.tile(u, (n, 1)), np.full(n, 1e-5))


def link(li, op, r, t, win):
    freq, Pt, Ts, rng_km, other, rate, req = op['par']
    lam = 299792458.0 / (freq * 1e9)
    gain = []
    for a in op['ant']:
        gain.append(a[1] * (np.pi * a[0] / lam) ** 2 if isinstance(a, list) else 10 ** (a / 10))
    loss = sum(op['loss'] or [1.0, 0.2, 0.35, 1.0]) + other
    W = Pt * gain[0] * gain[1] * (lam / (4 * np.pi * rng_km * 1e3)) ** 2 * 10 ** (-loss / 10)
    eb = 10 * np.log10(W / (1.380649e-23 * Ts * rate * 1e3))
    near('link', 'energy per bit', li.EB_N0, eb, 0.03)
    near('link', 'margin', li.EB_N0_margin, eb - req, 0.03)
    tx = np.zeros(len(t), dtype=bool)
    sure = np.ones(len(t), dtype=bool)
    for a, b in win:
        tx |= (a <= t) & (t <= b)
        if a != 0.0:
            sure &= np.abs(t - a) > 1e-9 * t[-1]
        if b != t[-1]:
            sure &= np.abs(t - b) > 1e-9 * t[-1]
    flags('schedule', 'transmission', li.schedule.transmit_array, tx, sure)
    got = np.asarray(li.data_volume_array, dtype=float)
    on = rate * 1e3 * np.asarray(r.visible_array).astype(bool) * np.asarray(li.schedule.transmit_array).astype(bool)
    vol = np.concatenate([[0.0], np.cumsum(0.5 * (on[1:] + on[:-1]) * np.diff(t))])
    near('volume', 'data volume', got, vol, 1e-9 * max(vol[-1], 1e-9))
    if np.any(np.diff(got) < 0):
        raise Violation('volume', 'the data volume decreases with time')
