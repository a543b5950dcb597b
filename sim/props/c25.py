"""C25: an unguided flight is reported as one trajectory, and what is computed along it belongs to it."""
import copy
import os

import numpy as np

from .. import flight, ref, world
from ..core import Violation
from . import c13

QUICK, THOROUGH = 320, 12000
RULE = ('a run is a history of up to four flights with a constant bank angle, between other uses and changes of the same vehicle; '
        'distinct = different event log')
REAL = ['AMAT.vehicle (propagation, events, loads, heating, analyses)', 'AMAT.planet', 'scipy odeint / solve_ivp']
STUB = flight.STUB + ['reference dynamics and formulas as oracle']
ASSUMPTIONS = ['solver tolerance 1e-8', 'the second solver stops where the flight-path angle passes -88 degrees (AMAT says so), the first may give up where it passes -90 (the equations are singular)']

# mass, beta, L/D, area, alpha, nose radius; altitude, speed, entry angle
START = {'VENUS': ([68.2, 38.1, 0.0, 3.1416, 0.0, 0.10], 150.0, 11.0, -5.4), 'EARTH': ([25.97, 66.4, 0.2, 0.19635, 0.0, 0.0563], 125.0, 9.8, -4.8),
         'MARS': ([25.97, 66.4, 0.2, 0.19635, 0.0, 0.0563], 150.0, 5.74, -11.9), 'TITAN': ([818, 90.0, 0.25, 11.045, 0.0, 0.91], 1000.0, 6.5, -35.0),
         'URANUS': ([3000, 200.0, 0.36, 63.617, 0.0, 1.125], 1000.0, 27.59, -11.95), 'NEPTUNE': ([1000, 200.0, 0.40, 3.1416, 0.0, 1.0], 1000.0, 28.0, -13.8),
         'JUPITER': ([335.0, 256.0, 0.0, 1.26, 0.0, 0.22], 450.0, 47.37, -8.5), 'SATURN': ([140.0, 127.0, 0.0, 0.7854, 0.0, 0.18], 900.0, 28.46, -11.4)}
SI = ['tc', 'rc', 'thetac', 'phic', 'vc', 'psic', 'gammac', 'drangec']
UNITS = [('t_minc', 'tc', 1 / 60.0), ('theta_degc', 'thetac', 180 / np.pi), ('phi_degc', 'phic', 180 / np.pi), ('v_kmsc', 'vc', 1e-3),
         ('psi_degc', 'psic', 180 / np.pi), ('gamma_degc', 'gammac', 180 / np.pi), ('drange_kmc', 'drangec', 1e-3)]
LOADS = ['acc_net_g', 'acc_drag_g', 'dyn_pres_atm', 'stag_pres_atm', 'q_stag_con', 'q_stag_rad', 'q_stag_total', 'heatload']
ALL = SI + [u[0] for u in UNITS] + ['h_kmc'] + LOADS
CHANGES = ['state', 'state', 'air', 'table', 'nose', 'limits', 'broken', 'broken', 'analysis', 'broken-analysis', 'other', 'capture']


def state(rng, pid):
    _, h, v, g = START[pid]
    return {'h0': h if rng.random() < 0.6 else rng.choice([round(h * rng.uniform(0.5, 0.999), 3), float(int(h * rng.uniform(0.8, 1.0)))]),
            'lon': round(rng.uniform(-180, 180), 3), 'lat': round(rng.uniform(-75, 75), 3),
            'v0': round(v * (rng.uniform(0.98, 1.02) if rng.random() < 0.7 else rng.uniform(0.3, 1.2)), 4), 'psi': round(rng.uniform(-180, 180), 3),
            'efpa': round(g * (rng.uniform(0.9, 1.1) if rng.random() < 0.6 else rng.uniform(0.2, 3.0 if g > -15 else 1.8)), 4),
            'dr0': rng.choice([0.0, 0.0, round(rng.uniform(0, 500), 2)]), 'hl0': rng.choice([0.0, 0.0, round(rng.uniform(0, 5000), 2)])}


def leg(rng, pid):
    t = rng.choice([40.0, 200.0, 200.0, 600.0, 600.0, 1500.0, 1500.0])
    dt = rng.choice([0.5, 1.0, 1.0, 2.0, 2.0, 0.7])
    if pid in ('VENUS', 'TITAN') or t > 1000.0:
        dt = max(dt, 1.0)
    return {'t': t if rng.random() < 0.7 else round(t * rng.uniform(0.6, 1.4), 2), 'dt': dt, 'solver': rng.choice([1, 2]),
            'bank': rng.choice([0.0, 180.0, round(rng.uniform(-180, 180), 2), round(rng.uniform(-180, 180), 2)])}


def generate(rng, i, tier):
    pid = sorted(START)[i % len(START)]
    veh = copy.deepcopy(START[pid][0])
    if rng.random() < 0.5:
        for k in (0, 1, 3, 5):
            veh[k] = round(veh[k] * rng.uniform(0.5, 2.0), 4)
        veh[2] = rng.choice([0.0, round(rng.uniform(0.05, 0.6), 3)])
    c = {'planet': pid, 'vehicle': veh, 'dist': world.disturbances(rng, pid, strength=0.6), 'state': state(rng, pid), 'ops': [],
         'cdm': [round(rng.uniform(-0.4, 0.4), 3), round(rng.uniform(2.0, 30.0), 2), round(rng.uniform(1.0, 10.0), 2)] if rng.random() < 0.3 else None,
         'skip': rng.random() < 0.7}
    for k in range(rng.choice([1, 1, 2, 2, 3, 4])):
        for _ in range(rng.choice([0, 1, 1, 2]) if k else rng.choice([0, 0, 1])):
            ch = rng.choice(CHANGES)
            o = {'k': ch}
            if ch == 'state':
                o['state'] = state(rng, pid)
            elif ch == 'air':
                o['dist'] = world.disturbances(rng, pid, strength=0.6)
            elif ch == 'table':
                o['kind'] = rng.choice(['linear', 'cubic', 'quadratic'])
            elif ch == 'nose':
                o['rn'] = round(rng.uniform(0.05, 2.0), 3)
            elif ch == 'limits':
                o['trap'], o['h'] = round(rng.uniform(0.02, 0.3), 3), round(rng.uniform(0.8, 1.0), 3)
            elif ch in ('broken', 'broken-analysis'):
                o['at'], o['leg'], o['cls'] = rng.randrange(1, 400), leg(rng, pid), rng.choice(['stop', 'fail'])
            elif ch == 'analysis':
                o['salt'] = rng.randrange(1 << 30)
            elif ch == 'other':
                o['leg'], o['state'] = leg(rng, pid), state(rng, pid)
            elif ch == 'capture':
                o['leg'] = leg(rng, pid)
            c['ops'].append(o)
        flown = [x for x in c['ops'] if x['k'] == 'fly']
        if flown and rng.random() < 0.5:
            o = copy.deepcopy(flown[-1])              # the same flight again, one thing different
            n = rng.choice(['t', 'dt', 'solver', 'bank', 'bank', None, None])
            if n:
                o['leg'][n] = leg(rng, pid)[n]
        else:
            o = {'k': 'fly', 'leg': leg(rng, pid)}
        o['salt'] = rng.randrange(1 << 30)
        c['ops'].append(o)
    return c


def shrink(case):
    for k in range(len(case['ops'])):
        c = copy.deepcopy(case)
        del c['ops'][k]
        yield c
    for k in range(len(case['dist'])):
        c = copy.deepcopy(case)
        del c['dist'][k]
        yield c
    if case['cdm']:
        c = copy.deepcopy(case)
        c['cdm'] = None
        yield c


def need(ok, cls, msg):
    if not ok:
        raise Violation(cls, msg)


class Tables:
    """The profile of a planet, read by the harness."""

    def __init__(self, pid, cpcv, kind):
        from scipy.interpolate import interp1d
        p = world.PLANETS[pid]
        rows = []
        with open(os.path.join(world.REPO, 'atmdata', p['file'])) as f:
            for line in f:
                line = line.split('#')[0].split()
                if line:
                    rows.append([float(x) for x in line])
        a = np.array(rows)
        h = a[:, p['cols'][0]] * (1e3 if p['km'] else 1.0)
        T, P, D = (a[:, c] for c in p['cols'][1:])
        f = lambda y, fill: interp1d(h, y, kind=kind, fill_value=fill, bounds_error=False)
        self.T, self.P, self.a, self.D = f(T, 0.0), f(P, 0.0), f(np.sqrt(cpcv * P / D), 1e20), f(D, 0.0)
        self.lo, self.hi = h.min(), h.max()


class Sim:
    def __init__(self, case, out):
        self.case, self.out = case, out
        self.pid = case['planet']
        self.atm = world.SimAtmosphere(self.pid, case['dist'])
        self.planet = world.make_planet(self.pid, self.atm)
        if case['skip']:                        # the entry interface is the skip out altitude, as in AMAT's examples
            self.planet.h_skip = case['state']['h0'] * 1e3
        self.tab = Tables(self.pid, self.planet.CPCV, 'cubic')
        self.table_air = False
        self.v = self.vehicle()
        self.rn = case['vehicle'][5]
        self.s = case['state']
        self.kept = []

    def vehicle(self, st=None):
        from ..amat import Vehicle
        v = Vehicle('sim', *self.case['vehicle'], self.planet)
        v.setSolverParams(1e-8)
        if self.case['cdm']:
            v.userDefinedCDMach = True
            v.setCDMachFunction(world.MachDrag(v.CD, *self.case['cdm']))
        world.set_state(v, st or self.case['state'])
        return v

    def density(self, h):
        h = np.asarray(h, dtype=float)
        return self.tab.D(h) if self.table_air else self.atm.pure(h)

    def fits(self, st):
        """A start inside the atmosphere that is modelled."""
        return self.planet.h_trap < st['h0'] * 1e3 <= self.planet.h_skip

    # ---------------------------------------------------------------- operations
    def go(self, v, leg):
        (v.propogateEntry if leg['solver'] == 1 else v.propogateEntry2)(leg['t'], leg['dt'], leg['bank'])

    def broken(self, f, at, cls):
        exc = world.SimInterrupt if cls == 'stop' else world.SimFailure
        if self.table_air:
            return
        self.atm.interrupt_at, self.atm.interrupt_cls = self.atm.calls + at, exc
        try:
            f()
        except exc:
            self.out.fault('interrupt-' + cls)
        finally:
            self.atm.interrupt_at = None

    def change(self, o):
        k, v = o['k'], self.v
        if k == 'state':
            if self.fits(o['state']):
                self.s = o['state']
                world.set_state(v, self.s)
        elif k == 'air':
            self.atm = world.SimAtmosphere(self.pid, o['dist'])
            self.planet.density_int, self.table_air = self.atm, False
        elif k == 'table':
            t = world.PLANETS[self.pid]
            self.planet.loadAtmosphereModel(os.path.join(world.REPO, 'atmdata', t['file']), *t['cols'], intType=o['kind'], heightInKmFlag=t['km'])
            self.tab, self.table_air = Tables(self.pid, self.planet.CPCV, o['kind']), True
        elif k == 'nose':
            self.rn = v.RN = o['rn']
        elif k == 'limits':
            self.planet.h_trap = o['trap'] * self.s['h0'] * 1e3
            self.planet.h_skip = max(self.s['h0'] * 1e3, o['h'] * self.planet.h_skip)
        elif k == 'broken':
            self.broken(lambda: self.go(v, o['leg']), o['at'], o['cls'])
        elif k == 'broken-analysis' and self.kept:
            rc, vc = v.rc, v.vc
            if len(rc) > 1:
                self.broken(lambda: v.computeHeatingForMultipleRN(v.tc, rc, vc, [0.3, 0.5, 0.7, 2.0]), 1 + o['at'] % 8, o['cls'])
        elif k == 'analysis' and self.kept:
            self.analyse(o['salt'])
        elif k == 'other' and self.fits(o['state']):
            self.go(self.vehicle(o['state']), o['leg'])
        elif k == 'capture':
            v.isCaptured(o['leg']['t'], o['leg']['dt'], o['leg']['bank'])
            if self.kept:
                self.kept[-1] = None             # the record is now that of the check
        else:
            return
        self.out.probe('op-' + k)

    # ------------------------------------------------------------------- checks
    def fly(self, o):
        leg, v, p, out = o['leg'], self.v, self.planet, self.out
        self.go(v, leg)
        out.probe('flights')
        out.probe('%s-solver%d' % (self.pid.lower(), leg['solver']))
        n = len(v.tc)
        for k in ALL:
            a = getattr(v, k)
            need(len(a) == n, 'column-length', '%s has %d samples, the time %d' % (k, len(a), n))
            need(np.all(np.isfinite(a)), 'not-finite', '%s contains NaN or infinity' % k)
            out.array(k, np.asarray(a, dtype=float))
        need(n >= 1, 'empty', 'the record of the flight is empty')
        need(v.index == n, 'index', 'the event index is %r, the record has %d samples' % (v.index, n))
        t, r, h = v.tc, v.rc, v.rc - p.RP
        out['sim_s'] += float(t[-1])
        for a, b, f in UNITS:
            need(np.allclose(getattr(v, a), getattr(v, b) * f, rtol=1e-12, atol=1e-12), 'units', '%s is not %s in other units' % (a, b))
        need(np.allclose(v.h_kmc, h / 1e3, rtol=1e-11, atol=1e-8), 'units', 'h_kmc is not the altitude of rc')
        # start
        for k, name, f in (('h_kmc', 'h0', 1), ('theta_degc', 'lon', 1), ('phi_degc', 'lat', 1), ('v_kmsc', 'v0', 1), ('psi_degc', 'psi', 1),
                           ('gamma_degc', 'efpa', 1), ('drange_kmc', 'dr0', 1), ('heatload', 'hl0', 1)):
            got = float(getattr(v, k)[0])
            need(abs(got - self.s[name]) <= 1e-8 * max(1.0, abs(self.s[name])), 'wrong-start', '%s starts at %.9g, the entry state says %.9g' % (k, got, self.s[name]))
        # samples
        need(np.allclose(t, np.arange(n) * leg['dt'], rtol=1e-9, atol=1e-6), 'sampling', 'the samples are not %g s apart from 0 on' % leg['dt'])
        w = ref.World(p, self.density)
        if self.case['cdm']:
            f = world.MachDrag(1.0, *self.case['cdm'])
            w.cdm = lambda h, u: f(u / np.asarray(self.tab.a(h), dtype=float))
        y = np.stack([r, v.thetac, v.phic, v.vc, v.psic, v.gammac, v.drangec], 1)
        self.motion(w, y, t, leg)
        self.ending(w, y, t, leg)
        self.loads(w, h, v.vc, leg)
        # heat load
        q = v.q_stag_total
        want = self.s['hl0'] + np.concatenate([[0.0], np.cumsum(0.5 * (q[1:] + q[:-1]) * np.diff(t))])
        need(np.all(np.abs(v.heatload - want) <= 1e-9 * (1 + np.abs(want))), 'heat-load', 'the heat load is not the integral of the heat rate from its start value')
        self.analyse(o['salt'])
        # what was returned before stays as it was
        self.kept.append([(k, getattr(v, k), np.array(getattr(v, k))) for k in ALL])
        for i, old in enumerate(self.kept):
            for k, a, b in old or ():
                need(np.array_equal(a, b), 'changed-later', '%s of flight %d was changed by a later operation' % (k, i + 1))

    def motion(self, w, y, t, leg):
        if len(t) < 2:
            return
        m = len(t) - 1
        e = self.case['vehicle']
        z = ref.advance(w, y[:-1], np.diff(t), np.full(m, np.radians(leg['bank'])), np.full(m, e[1]), e[2], 16)
        c13.compare(w, y, z, t, np.full(m, np.radians(leg['bank'])), np.full(m, e[1]), c13.AIR * 4, self.planet.Vref)
        self.out.probe('steps-checked', m)

    def ending(self, w, y, t, leg):
        v, p, out = self.v, self.planet, self.out
        h = y[:, 0] - p.RP
        fl = float(v.exitflag)
        need(np.all(h <= p.h_skip + 1e-3), 'beyond-exit', 'the record goes on above the skip out altitude')
        e = self.case['vehicle']
        nxt = ref.advance(w, y[-1:], np.array([leg['dt']]), np.array([np.radians(leg['bank'])]), np.array([e[1]]), e[2], 32)[0]
        hn, slack = nxt[0] - p.RP, 50.0 + 0.02 * abs(nxt[0] - y[-1, 0])
        what = ('the flight ends at %.3f s, %.3f km, flight-path angle %.3f deg, a step later it is at %.3f km, %.3f deg, solver %d'
                % (t[-1], h[-1] / 1e3, np.degrees(y[-1, 5]), hn / 1e3, np.degrees(nxt[5]), leg['solver']))
        full = t[-1] > leg['t'] - leg['dt'] * 1e-3
        steep = min(np.degrees(y[-1, 5]), np.degrees(nxt[5])) < (-86.5 if leg['solver'] == 2 else -88.0)
        if not steep:
            need(t[-1] < leg['t'] + leg['dt'] * 1.01, 'too-long', 'the record goes on to %.3f s, the flight was to end at %.3f s' % (t[-1], leg['t']))
        if fl == 1.0:
            out.probe('skip-out')
            need(np.all(h >= -1.0), 'exit-after-impact', 'the flight is said to exit and has been below the ground')
            need(hn > p.h_skip - slack, 'early-exit', 'exit reported, but ' + what)
        elif fl == -1.0:
            out.probe('trapped')
            need(np.all(h >= p.h_trap - 1e-3), 'beyond-trap', 'the record of a trapped flight goes on below the trap altitude')
            need(hn < p.h_trap + slack, 'early-trap', 'trap reported, but ' + what)
            if t[-1] > 0 and not steep:
                self.lost(w, y[-1], t[-1], leg)
        else:
            out.probe('timeout')
            need(fl == 0.0, 'exit-flag', 'the exit flag is %r' % (v.exitflag,))
            need(full or steep, 'early-timeout', 'no event reported before %.3f s, but ' % leg['t'] + what)
            if not steep:
                need(h.min() >= p.h_trap - 1e-3, 'missed-trap', 'no event reported, but the flight was at %.3f km' % (h.min() / 1e3))

    def lost(self, w, y, t, leg):
        """A vehicle which passes the trap altitude and leaves the atmosphere all the same has not been trapped."""
        p, e = self.planet, self.case['vehicle']
        y, low = y[None, :], np.inf
        bank, beta = np.array([np.radians(leg['bank'])]), np.array([e[1]])
        for k in range(int((leg['t'] - t) / leg['dt'])):
            y = ref.advance(w, y, np.array([leg['dt']]), bank, beta, e[2], 4)
            h = y[0, 0] - p.RP
            low = min(low, h)
            if h < 2e3 or y[0, 3] < 0.3 * p.Vref or np.degrees(y[0, 5]) < -80 or k > 600:
                return
            if h > p.h_skip + 1e3:
                raise Violation('exit-called-trap', 'the flight is said to be trapped, but leaves the atmosphere %.1f s later, after passing %.3f km'
                                % ((k + 1) * leg['dt'], low / 1e3))

    def close(self, name, got, want, tol=1e-9):
        d = np.abs(np.asarray(got, dtype=float) - want)
        lim = tol * np.maximum(np.abs(want), 1e-12 * np.max(np.abs(want), initial=1e-300))
        if np.any(~(d <= lim)):
            i = int(np.argmax(d - lim))
            raise Violation('load-of-other-state', '%s at sample %d is %.12g, the state there gives %.12g' % (name, i, np.ravel(got)[i], np.ravel(want)[i]))

    def cd(self, h, u):
        return world.MachDrag(1.0, *self.case['cdm'])(u / self.tab.a(h)) if self.case['cdm'] else 1.0

    def loads(self, w, h, u, leg):
        v, e = self.v, self.case['vehicle']
        q = 0.5 * self.density(h) * u ** 2
        self.close('dynamic pressure', v.dyn_pres_atm, q / 101325.0)
        self.close('stagnation pressure', v.stag_pres_atm, (q + self.tab.P(h)) / 101325.0)
        cd = self.cd(h, u)
        self.close('drag deceleration', v.acc_drag_g, q / e[1] * cd / 9.80665)
        self.close('deceleration', v.acc_net_g, q / e[1] * np.sqrt(cd ** 2 + e[2] ** 2) / 9.80665)
        fresh = self.vehicle()
        fresh.RN = self.rn
        a, b = fresh.qStagConvective(v.rc, u), fresh.qStagRadiative(v.rc, u)
        self.close('convective heat rate', v.q_stag_con, a)
        self.close('radiative heat rate', v.q_stag_rad, b)
        self.close('heat rate', v.q_stag_total, a + b)
        need(np.all(np.asarray(v.q_stag_con) >= 0) and np.all(np.asarray(v.q_stag_rad) >= 0), 'negative-heat-rate', 'a heat rate is negative')

    def analyse(self, salt):
        """Analyses along any part of the record, in any order of its samples."""
        import random
        v, out = self.v, self.out
        rng = random.Random('analyse/%d' % salt)
        n = len(v.tc)
        if n < 3:
            return
        k = rng.randint(2, min(n, 60))
        i = sorted(rng.sample(range(n), k))
        if rng.random() < 0.4:
            a = rng.randrange(0, n - 1)
            i = list(range(a, rng.randint(a + 2, n)))
        mixed = list(i)
        rng.shuffle(mixed)
        i, mixed = np.array(i), np.array(mixed)
        r, u = v.rc[mixed].copy(), v.vc[mixed].copy()
        r0, u0, h = r.copy(), u.copy(), v.rc[mixed] - self.planet.RP
        mach = u / self.tab.a(h)
        self.close('Mach number', v.computeMach(r, u), mach)
        self.close('stagnation temperature', v.computeStagTemp(r, u), self.tab.T(h) * (1 + 0.5 * (self.planet.CPCV - 1) * mach ** 2))
        self.close('energy', v.computeEnergy(r, u), 0.5 * u ** 2 - self.planet.GM / r)
        q = 0.5 * self.density(h) * u ** 2
        self.close('dynamic pressure', v.computeDynPres(r, u), q)
        self.close('stagnation pressure', v.computeStagPres(r, u), q + self.tab.P(h))
        j = rng.randrange(len(mixed))
        self.close('Mach number of one state', [v.computeMachScalar(float(r[j]), float(u[j]))], mach[j:j + 1])
        self.close('energy of one state', [v.computeEnergyScalar(float(r[j]), float(u[j]))], (0.5 * u ** 2 - self.planet.GM / r)[j:j + 1])
        self.close('heat rate', v.qStagTotal(r, u), np.asarray(v.qStagConvective(v.rc, v.vc))[mixed] + np.asarray(v.qStagRadiative(v.rc, v.vc))[mixed])
        RN = [round(rng.uniform(0.05, 3.0), 3) for _ in range(rng.choice([1, 2, 3, 4, 7]))]
        if rng.random() < 0.5:
            RN.insert(rng.randrange(len(RN) + 1), self.rn)
        given = np.array(RN) if rng.random() < 0.5 else list(RN)
        peak, load = v.computeHeatingForMultipleRN(v.tc[i], v.rc[i], v.vc[i], given)
        need(list(given) == RN, 'input-changed', 'the analysis changed the nose radii it was given')
        need(v.RN == self.rn, 'nose-radius', 'the nose radius is %r after the analysis of others, %r before' % (v.RN, self.rn))
        for m, x in enumerate(RN):
            f = self.vehicle()
            f.RN = x
            qq = np.asarray(f.qStagConvective(v.rc[i], v.vc[i])) + np.asarray(f.qStagRadiative(v.rc[i], v.vc[i]))
            self.close('peak heat rate for nose radius %g' % x, peak[m:m + 1], np.array([qq.max()]))
            self.close('heat load for nose radius %g' % x, load[m:m + 1], np.array([np.sum(0.5 * (qq[1:] + qq[:-1]) * np.diff(v.tc[i]))]))
        need(np.array_equal(r, r0) and np.array_equal(u, u0), 'input-changed', 'an analysis changed the trajectory it was given')
        out.probe('analyses')


def run(case, out):
    s = Sim(case, out)
    if not s.fits(s.s):
        out['key'] = out['log']
        return
    for d in case['dist']:
        out.fault('density-' + d['k'])
    for o in case['ops']:
        if o['k'] == 'fly':
            s.fly(o)
        else:
            s.change(o)
    out['nontrivial'] = any(k is not None and len(k[0][1]) > 5 for k in s.kept)
    out['key'] = out['log']
