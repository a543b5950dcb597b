"""C22: the orbit after a flight, and the maneuvers flown from it."""
import numpy as np

from .. import flight, ref, world
from ..core import Violation

QUICK, THOROUGH = 160, 4000
RULE = ('a run is one flight through a disturbed atmosphere, followed by a history of orbit maneuvers (probe targeting, deflection, '
        'misses, another flight of the vehicle); distinct = different event log')
REAL = ['AMAT.orbiter Orbiter', 'AMAT.vehicle (flight and orbit formulas)', 'AMAT.planet', 'scipy odeint / solve_ivp']
STUB = flight.STUB + ['two-body mechanics in vectors as oracle']
ASSUMPTIONS = ['AMAT divides the cosine of the flight-path angle by 1.0000001: directions at an apsis are compared to 1e-3 rad']
shrink = flight.shrink
PI2 = 2 * np.pi


def generate(rng, i, tier):
    c = flight.generate(rng, i, tol=1e-6, calm=True)
    s = c['s']
    c['plain'] = rng.random() < 0.2                       # unguided flight
    if rng.random() < 0.4:
        s['psi'] = round(rng.uniform(-180, 180), 3)
        s['lat'] = round(rng.uniform(-75, 75), 3)
    c['exit'] = None
    if rng.random() < 0.6:                                # an exit state other than those flights end in
        c['exit'] = [round(rng.uniform(-180, 180), 4), round(rng.uniform(-80, 80), 4), round(rng.uniform(0.86, 1.3), 4),
                     round(rng.uniform(1, 35), 4), round(rng.uniform(-180, 180), 4)]
        if rng.random() < 0.45:                           # close to the equator, or polar, either way round
            c['exit'][1] = round(rng.choice([-1, 1]) * rng.uniform(0.5, 8), 4)
            c['exit'][4] = round(rng.choice([0, 90, 180, -90]) + rng.uniform(-7, 7), 4)
    c['peri'] = round(rng.uniform(1.05, 6.0), 3)
    c['ops'] = []
    for _ in range(rng.randint(1, 4)):
        k = rng.choice(['probe', 'probe', 'probe', 'miss', 'defl', 'defl', 'fly', 'coast', 'recoast'])
        th = rng.choice([180.0, round(rng.uniform(150, 210), 3), round(rng.uniform(150, 210), 3), round(rng.uniform(20, 340), 3)])
        c['ops'].append([k, th, round(rng.uniform(0.02, 0.9), 3), rng.choice([2, 31, 301])])
    kinds = [o[0] for o in c['ops']]
    if 'defl' in kinds and 'probe' not in kinds[:kinds.index('defl')]:      # a deflection follows a probe
        c['ops'].insert(rng.randint(0, kinds.index('defl')), ['probe', 180.0, round(rng.uniform(0.02, 0.9), 3), 31])
    return c


class Orbit:
    """Two-body orbit through (R, V)."""

    def __init__(self, mu, R, V):
        self.mu = mu
        self.h_vec = np.cross(R, V)
        self.h = np.linalg.norm(self.h_vec)
        self.n = self.h_vec / self.h
        r = np.linalg.norm(R)
        self.e_vec = np.cross(V, self.h_vec) / mu - R / r
        self.e = np.linalg.norm(self.e_vec)
        self.P = self.e_vec / self.e
        self.Q = np.cross(self.n, self.P)
        self.p = self.h ** 2 / mu
        self.a = self.p / (1 - self.e ** 2)

    @classmethod
    def like(cls, o, ra, rp):
        """Same plane and apses, other size."""
        v = np.sqrt(2 * o.mu / rp - 2 * o.mu / (ra + rp))
        return cls(o.mu, rp * o.P, v * o.Q)

    def pos(self, th, P=None):
        P = self.P if P is None else P
        r = self.p / (1 + self.e * np.cos(th))
        return r * (np.cos(th) * P + np.sin(th) * np.cross(self.n, P))

    def vel(self, th):
        return np.sqrt(self.mu / self.p) * (-np.sin(th) * self.P + (self.e + np.cos(th)) * self.Q)

    def elements(self):
        node = np.cross([0.0, 0.0, 1.0], self.h_vec)
        node = node / np.linalg.norm(node)
        inc = np.arccos(self.n[2])
        Om = np.arctan2(node[1], node[0]) % PI2
        om = np.arctan2(np.dot(np.cross(node, self.P), self.n), np.dot(node, self.P)) % PI2
        return inc, Om, om


def angle(a, b):
    return abs((a - b + np.pi) % PI2 - np.pi)


class Judge:
    def __init__(self, out):
        self.out, self.noted = out, set()

    def note(self, cls, msg):
        """A recorded finding, once per run."""
        if cls not in self.noted:
            self.noted.add(cls)
            self.out.fail('known-' + cls, msg)

    def number(self, name, got, want, tol, floor=0.0):
        got = float(got)
        self.out.event(name, round(got, 9))
        if not abs(got - want) <= tol * max(abs(want), floor, 1e-300):
            raise Violation('orbit-' + name.split()[0], '%s is %.10g, independent mechanics give %.10g' % (name, got, want))

    def angle(self, name, got, want, tol):
        self.out.event(name, round(float(got), 9))
        if not angle(float(got), want) <= tol:
            raise Violation('orbit-' + name.split()[0], '%s is %.9f deg, independent mechanics give %.9f deg'
                            % (name, np.degrees(got), np.degrees(want)))

    def vector(self, name, got, want, tol, known=None):
        got = np.asarray(got, dtype=float)
        n = np.linalg.norm(want)
        if got.shape != np.shape(want) or not np.all(np.isfinite(got)):
            raise Violation('orbit-' + name.split()[0], '%s is %r' % (name, got))
        if np.linalg.norm(got - want) <= tol * n:
            return True
        if known is not None and np.linalg.norm(got - known[1]) <= tol * n:
            self.note(known[0], '%s is %r instead of %r: %s' % (name, got.tolist(), np.asarray(want).tolist(), known[2]))
            return False
        raise Violation('orbit-' + name.split()[0], '%s is %r, independent mechanics give %r' % (name, got.tolist(), np.asarray(want).tolist()))

    def path(self, name, o, n, cols, orb, th0, th1, RP, P=None):
        """Points from th0 to th1 on the orbit."""
        X = np.stack([np.asarray(getattr(o, c), dtype=float) for c in cols], 1) * RP
        if len(X) != n:
            raise Violation('path-points', '%s has %d points, %d were asked for' % (name, len(X), n))
        self.out.array(name, X)
        P = orb.P if P is None else P
        Q = np.cross(orb.n, P)
        r = np.linalg.norm(X, axis=1)
        if not np.all(np.abs(X @ orb.n) <= 2e-5 * r):
            raise Violation('path-plane', 'the %s leaves the plane of its orbit' % name)
        th = np.unwrap(np.arctan2(X @ Q, X @ P))
        want = orb.p / (1 + orb.e * np.cos(th))
        if not np.all(np.abs(r - want) <= 1e-4 * want):
            k = int(np.argmax(np.abs(r - want)))
            raise Violation('path-radius', 'point %d of the %s is at radius %.6g km, the orbit passes there at %.6g km'
                            % (k, name, r[k] / 1e3, want[k] / 1e3))
        if angle(th[0], th0) > 2e-4 or angle(th[-1], th1) > 2e-4:
            raise Violation('path-ends', 'the %s goes from true anomaly %.4f to %.4f deg, not from %.4f to %.4f'
                            % (name, np.degrees(th[0]), np.degrees(th[-1]), np.degrees(th0), np.degrees(th1)))
        if n > 60 and abs((th[-1] - th[0]) - (th1 - th0)) > 1e-3:
            raise Violation('path-length', 'the %s covers %.4f deg of true anomaly instead of %.4f'
                            % (name, np.degrees(th[-1] - th[0]), np.degrees(th1 - th0)))
        if n > 60 and np.any(np.diff(th) * np.sign(th1 - th0) <= 0):
            raise Violation('path-back', 'the %s turns back' % name)


APSE = 'position taken with the argument of periapsis of the capture orbit'


def run(case, out):
    s = case['s']
    if case['plain']:
        atm = world.SimAtmosphere(s['planet'], case['dist'])
        v = world.make_vehicle(s, world.make_planet(s['planet'], atm))
        (v.propogateEntry if s['solver'] == 1 else v.propogateEntry2)(2400.0, 1.0, 0.0)
        w = ref.World(v.planetObj, atm.pure)
        out['sim_s'] += float(v.tc[v.index - 1])
        for d in atm.dist:
            out.fault('density-' + d['k'])
    else:
        f = flight.fly(case)
        f.describe(out)
        v, w = f.v, f.w
    pl = v.planetObj
    RP = w.RP
    if case['exit']:
        lon, lat, vel, g, psi = case['exit']
        k = v.index - 1
        v.rc[k] = RP + pl.h_skip
        v.thetac[k], v.phic[k], v.psic[k], v.gammac[k] = np.radians([lon, lat, psi, g])
        v.vc[k] = vel * np.sqrt(w.GM / v.rc[k])
        y = np.array([[v.rc[k], v.thetac[k], v.phic[k], v.vc[k], v.psic[k], v.gammac[k], 0.0]])
    elif case['plain']:
        k = v.index - 1
        y = np.array([[v.rc[k], v.thetac[k], v.phic[k], v.vc[k], v.psic[k], v.gammac[k], 0.0]])
    else:
        y = f.y[-1:]
    R, V = (x[0] for x in ref.inertial(w, y))
    o = Orbit(w.GM, R, V)
    ra = o.a * (1 + o.e)
    rt = RP + case['peri'] * pl.h_skip
    inc = o.elements()[0]
    if not (0.01 < o.e < 0.97 and R @ V > 0 and rt < 0.9 * ra and ra < 200 * RP and 0.01 < inc < np.pi - 0.01):
        out.probe('not-captured')
        return
    out.probe('captured')
    out['nontrivial'] = True
    from AMAT.orbiter import Orbiter
    q = Orbiter(v, (rt - RP) / 1e3)
    J = Judge(out)
    # ------------------------------------------------- handover and coast
    for name, k in (('r', 0), ('theta', 1), ('phi', 2), ('v', 3), ('psi', 4), ('g', 5)):
        J.number('exit state ' + name, getattr(q, 'terminal_' + name), y[0, k], 1e-9, 1.0)
    J.vector('exit-position', q.terminal_r_vec, R, 1e-9)
    J.vector('exit-velocity', q.terminal_v_ie_vec, V, 1e-9)
    J.number('exit-speed', q.terminal_v_bi, np.linalg.norm(V), 1e-9)
    J.angle('exit-angle', q.terminal_g_bi, np.arcsin(R @ V / np.linalg.norm(R) / np.linalg.norm(V)), 1e-7)
    th = th_exit = np.arctan2(R @ o.Q, R @ o.P)
    J.angle('exit-anomaly', q.theta_star_exit, th, 1e-5)
    inc, Om, om = o.elements()
    J.angle('inclination of the coast', q.i, inc, 1e-6)
    J.angle('node of the coast', q.OMEGA, Om, 1e-6)
    J.angle('periapsis argument of the coast', q.omega, om, 1e-5)
    J.number('apoapsis', q.r_apoapsis_mag, ra, 1e-6)
    J.vector('apoapsis vector', q.r_apoapsis_vec * RP, o.pos(np.pi), 1e-5)
    J.path('coast', q, 301, ('x_coast_arr', 'y_coast_arr', 'z_coast_arr'), o, th, np.pi, RP)
    # ------------------------------------------------------ periapsis raise
    c = Orbit.like(o, ra, rt)
    J.number('size of the orbit', q.a, c.a, 1e-6)
    J.number('eccentricity of the orbit', q.e, c.e, 1e-5, 0.1)
    J.number('angular momentum of the orbit', q.h, c.h, 1e-6)
    J.vector('coast-velocity at apoapsis', q.v_apoapsis_vec_coast, o.vel(np.pi), 1e-3)
    J.number('coast-speed at apoapsis', q.v_apoapsis_mag_coast, np.linalg.norm(o.vel(np.pi)), 1e-6)
    J.vector('orbit-velocity at apoapsis', q.v_apoapsis_vec_orbit, c.vel(np.pi), 1e-3)
    J.number('orbit-speed at apoapsis', q.v_apoapsis_mag_orbit, np.linalg.norm(c.vel(np.pi)), 1e-6)
    dv = c.vel(np.pi) - o.vel(np.pi)
    J.number('raise-cost', q.PRM_dv_mag, np.linalg.norm(dv), 1e-5, np.linalg.norm(o.vel(np.pi)))
    if np.linalg.norm(dv) > 1.0:
        J.vector('raise-maneuver', q.PRM_dv_vec, dv, 2e-3)
    J.path('orbit', q, 601, ('x_orbit_arr', 'y_orbit_arr', 'z_orbit_arr'), c, np.pi, 3 * np.pi, RP)
    # ------------------------------------------------------------ maneuvers
    probe = None
    for op, deg, x, n in case['ops']:
        th = np.radians(deg)
        J.vector('position on the orbit', q.pos_vec_bi(th), c.pos(th), 1e-5)
        J.vector('velocity on the orbit', q.vel_vec_bi(th), c.vel(th), 1e-3)
        out.probe('op-' + op)
        if op == 'fly':
            v.setInitialState(s['h0'], s['lon'] + 3.0, s['lat'], s['v0'] * 0.98, s['psi'], s['efpa'] - 0.1, 0.0, 0.0)
            v.propogateEntry(300.0, 1.0, 0.0)
        elif op == 'coast':
            q.compute_orbit_trajectory(n)
            J.path('orbit', q, n, ('x_orbit_arr', 'y_orbit_arr', 'z_orbit_arr'), c, np.pi, 3 * np.pi, RP)
        elif op == 'recoast':
            q.compute_coast_trajectory(n)
            J.path('coast', q, n, ('x_coast_arr', 'y_coast_arr', 'z_coast_arr'), o, th_exit, np.pi, RP)
            J.number('apoapsis', q.r_apoapsis_mag, ra, 1e-6)
            J.number('coast-speed at apoapsis', q.v_apoapsis_mag_coast, np.linalg.norm(o.vel(np.pi)), 1e-6)
            J.number('size of the orbit', q.a, c.a, 1e-6)
            J.number('eccentricity of the orbit', q.e, c.e, 1e-5, 0.1)
        elif op in ('probe', 'miss'):
            probe = target(J, q, c, case, op, th, x, n, pl, w)
        elif op == 'defl' and probe is not None:
            deflect(J, q, c, probe, th, x, n, w)
    out['key'] = out['log']


def along(mu, R, V, rp):
    """Change of speed along V at R that gives the periapsis radius rp, by bisection (None: out of reach)."""
    r, u = np.linalg.norm(R), np.linalg.norm(V)

    def peri(d):
        o = Orbit(mu, R, V * (1 + d / u))
        return o.p / (1 + o.e), o.e
    lo, hi = -0.6 * u, 0.2 * u
    if not peri(lo)[0] < rp < peri(hi)[0] or peri(hi)[1] >= 1:
        hi = 0.0
        if not peri(lo)[0] < rp < peri(hi)[0]:
            return None
    for _ in range(60):
        m = 0.5 * (lo + hi)
        lo, hi = (m, hi) if peri(m)[0] < rp else (lo, m)
    return 0.5 * (lo + hi)


def state_orbit(J, q, name, orb, a, e, i, h, Om, om):
    """Reported elements of the orbit after a burn."""
    inc, node, arg = orb.elements()
    J.number(name + '-size', a, orb.a, 1e-5 / (1 - orb.e))
    J.number(name + '-eccentricity', e, orb.e, 1e-5, 1.0)
    J.number(name + '-momentum', h, orb.h, 1e-5)
    J.angle(name + '-inclination', i, inc, 1e-5)
    J.angle(name + '-node', Om, node, 2e-5 / np.sin(inc))
    J.angle(name + '-argument', om, arg, 1e-4 / orb.e + 2e-5 / np.sin(inc))


def target(J, q, c, case, op, th, x, n, pl, w):
    R, V = c.pos(th), c.vel(th)
    r_ei = w.RP + pl.h_skip
    # the burn: a periapsis inside (or, for a miss, outside) the atmosphere
    rp = w.RP + pl.h_skip * (1.02 + 0.5 * x if op == 'miss' else 0.9 * (x - 0.45))
    dV = along(w.GM, R, V, rp)
    if dV is None or np.linalg.norm(R) < 1.02 * r_ei:
        return None
    q.compute_probe_targeting_trajectory(th, dV, n)
    # the state AMAT starts from is its own, found right above to 1e-3 rad; use it, so that later comparisons are sharp
    R1, V1 = q.pos_vec_bi(th), q.vel_vec_bi(th)
    burn = dV * V1 / np.linalg.norm(V1)
    J.vector('burn of the probe', q.dV_vec_probe_targeting, burn, 1e-9)
    p = Orbit(w.GM, R1, V1 + burn)
    if not 0.02 < p.e < 0.99:
        return None
    state_orbit(J, q, 'probe', p, q.a_probe_orbit, q.e_probe_orbit, q.i_probe_orbit, q.h_probe_orbit, q.OMEGA_probe_orbit, q.omega_probe_orbit)
    peri = p.p / (1 + p.e)
    J.number('probe-periapsis', q.r_periapsis_probe, peri, 1e-5)
    J.number('probe-periapsis altitude', q.h_periapsis_probe, peri - w.RP, 1e-5, w.RP)
    J.number('probe-apoapsis', q.r_apoapsis_probe, p.a * (1 + p.e), 1e-4)
    wrong = lambda a: p.pos(a, P=c.P)
    for a in (th, 0.3, 2.0, 4.0):
        J.vector('probe-position at %.4f rad' % a, q.pos_vec_bi_probe(a), p.pos(a), 2e-4, ('probe-apse', wrong(a), APSE))
        J.vector('probe-velocity at %.4f rad' % a, q.vel_vec_bi_probe(a), p.vel(a), 1.5e-3)
    cols = ('x_probe_orbit_arr', 'y_probe_orbit_arr', 'z_probe_orbit_arr')
    if op == 'miss':
        if hasattr(q, 'theta_star_probe_entry') or hasattr(q, 'v_mag_probe_entry_atm'):
            raise Violation('entry-of-a-miss', 'the probe stays %.1f km above the atmosphere, but an entry state is reported'
                            % ((peri - r_ei) / 1e3))
        return p
    if peri >= r_ei - 1.0 or p.a * (1 + p.e) <= r_ei:
        return p
    J.out.probe('probe-entry')
    te = PI2 - np.arccos((p.p / r_ei - 1) / p.e)
    J.number('entry-altitude', q.h_EI, pl.h_skip, 1e-9)
    J.number('entry-radius', q.r_EI, r_ei, 1e-9)
    J.angle('entry-anomaly', q.theta_star_probe_entry, te, 1e-4)
    te = float(q.theta_star_probe_entry)
    Re, Ve = p.pos(te), p.vel(te)
    J.vector('entry-position of the probe', q.r_vec_bi_probe_entry, Re, 2e-4, ('probe-apse', wrong(te), APSE))
    J.number('entry-radius of the probe', q.r_vec_bi_probe_entry_mag, r_ei, 1e-6)
    J.vector('entry-velocity of the probe', q.v_bi_vec_probe_entry, Ve, 2e-4)
    J.number('entry-speed', q.v_bi_mag_probe_entry, np.linalg.norm(Ve), 1e-6)
    J.angle('entry-angle', q.gamma_inertial_probe_entry, np.arcsin(p.n @ np.cross(Re, Ve) * 0 + Re @ Ve / np.linalg.norm(Re) / np.linalg.norm(Ve)), 2e-4)
    # from here on: what follows from the reported position
    Rg, Vg = np.asarray(q.r_vec_bi_probe_entry), np.asarray(q.v_bi_vec_probe_entry)
    up = Rg / np.linalg.norm(Rg)
    J.angle('entry-latitude', q.latitude_probe_entry_bi, np.arcsin(up[2]), 1e-9)
    J.angle('entry-longitude', q.longitude_probe_entry_bi, np.arctan2(up[1], up[0]), 1e-9)
    Va = Vg - np.cross([0.0, 0.0, w.OM], Rg)
    J.vector('relative-velocity at entry', q.v_vec_probe_entry_atm, Va, 1e-9)
    J.number('relative-speed at entry', q.v_mag_probe_entry_atm, np.linalg.norm(Va), 1e-9)
    ua = Va / np.linalg.norm(Va)
    got, want, bad = float(q.gamma_atm_probe_entry), np.arcsin(up @ ua), np.arcsin(up @ Vg / np.linalg.norm(Vg))
    if angle(got, want) > 1e-7:
        if angle(got, bad) > 1e-7:
            raise Violation('relative-angle', 'the atmosphere-relative entry angle is %.8f deg, not %.8f' % (np.degrees(got), np.degrees(want)))
        J.note('relative-angle', 'the atmosphere-relative entry angle is that of the inertial velocity: %.6f instead of %.6f deg'
                   % (np.degrees(got), np.degrees(want)))
    east = np.array([-up[1], up[0], 0.0]) / np.hypot(up[0], up[1])
    north = np.cross(up, east)
    flat = ua - (ua @ up) * up
    got, want = float(q.heading_atm_probe_entry), np.arctan2(flat @ north, flat @ east)
    if angle(got, want) > 1e-6:
        if abs(np.cos(got) - flat @ east) > 1e-9:
            raise Violation('heading', 'the heading at entry is %.6f deg, not %.6f' % (np.degrees(got), np.degrees(want)))
        J.note('heading', 'the heading at entry is the arc cosine of an unscaled projection: %.6f instead of %.6f deg'
                   % (np.degrees(got), np.degrees(want)))
    if th < te:
        X = q.pos_vec_bi_probe(te)
        good = np.linalg.norm(X - p.pos(te)) <= np.linalg.norm(X - wrong(te))
        J.path('probe', q, n, cols, p, th, te, w.RP, P=None if good else c.P)
    return p


def deflect(J, q, c, p, th, x, n, w):
    R1, V1 = q.pos_vec_bi_probe(th), q.vel_vec_bi_probe(th)
    if R1 @ R1 < (1.02 * w.RP) ** 2:
        return
    u = np.linalg.norm(V1)
    dV = round(float((x - 0.3) * 0.1 * u), 3)
    d = Orbit(w.GM, R1, V1 * (1 + dV / u))
    if not 0.02 < d.e < 0.99 or not 0.01 < d.elements()[0] < np.pi - 0.01 or d.n @ c.n < 0:
        return
    q.compute_orbiter_deflection_trajectory(th, dV, n)
    J.out.probe('deflections')
    J.vector('burn of the orbiter', q.dV_vec_orbiter_deflection, dV * V1 / u, 1e-9, None) if dV else None
    state_orbit(J, q, 'deflected', d, q.a_orbiter_defl, q.e_orbiter_defl, q.i_orbiter_defl, q.h_orbiter_defl, q.OMEGA_orbiter_defl,
                q.omega_orbiter_defl)
    peri = d.p / (1 + d.e)
    J.number('deflected-periapsis', q.r_periapsis_orbiter_defl, peri, 1e-5)
    J.number('deflected-periapsis altitude', q.h_periapsis_orbiter_defl, peri - w.RP, 1e-5, w.RP)
    J.number('deflected-apoapsis', q.r_apoapsis_orbiter_defl, d.a * (1 + d.e), 1e-4)
    for a in (0.3, 2.0, 4.0):
        J.vector('deflected-position at %.1f rad' % a, q.pos_vec_bi_orbiter_defl(a), d.pos(a), 3e-4,
                 ('deflected-apse', d.pos(a, P=c.P), APSE))
    X = q.pos_vec_bi_orbiter_defl(2.0)
    good = np.linalg.norm(X - d.pos(2.0)) <= np.linalg.norm(X - d.pos(2.0, P=c.P))
    J.path('deflected orbit', q, n, ('x_orbiter_defl_arr', 'y_orbiter_defl_arr', 'z_orbiter_defl_arr'), d, 0.0, PI2, w.RP,
           P=None if good else c.P)
