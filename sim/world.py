"""
The simulated world: planets, vehicles, atmospheres and campaigns.

Everything is built from a JSON scenario.  The atmosphere a flight meets is
`SimAtmosphere`, a callable put where AMAT keeps its density look-up (an
existing seam: it is an ordinary attribute which campaigns replace as well).
It applies the scenario's disturbances, counts evaluations, and can interrupt
the program, stop a runaway flight, or hand control to the thread scheduler
at any evaluation.
"""
import copy
import math
import os

import numpy as np

from .core import HarnessError, Violation

REPO = os.environ.get('VERIF_REPO', '/repo')

# ---------------------------------------------------------------- templates
PLANETS = {
    'NEPTUNE': dict(file='Neptune/neptune-gram-avg.dat', cols=[0, 7, 6, 5], km=True),
    'URANUS': dict(file='Uranus/uranus-gram-avg.dat', cols=[0, 1, 2, 3], km=True,
                   set=dict(h_skip=1000e3, h_low=120e3, h_trap=100e3)),
    'TITAN': dict(file='Titan/titan-gram-avg.dat', cols=[0, 1, 2, 3], km=False,
                  set=dict(h_skip=1000e3)),
    'VENUS': dict(file='Venus/venus-gram-avg.dat', cols=[0, 1, 2, 3], km=False,
                  set=dict(h_skip=150e3)),
    'MARS': dict(file='Mars/mars-gram-avg.dat', cols=[0, 1, 2, 3], km=False,
                 set=dict(h_skip=150e3, h_low=10e3)),
    'EARTH': dict(file='Earth/earth-gram-avg.dat', cols=[0, 1, 2, 3], km=False,
                  set=dict(h_skip=125e3, h_low=10e3)),
    'JUPITER': dict(file='Jupiter/jupiter-galileo-asi.dat', cols=[0, 1, 2, 3], km=True),
    'SATURN': dict(file='Saturn/saturn-nominal.dat', cols=[0, 1, 2, 3], km=True),
}

LIFT = {
    'NEPTUNE': dict(vehicle=[1000, 200.0, 0.40, 3.1416, 0.0, 1.0], h0=999.9, v0=28.0, efpa=-13.80,
                    efpa_sd=0.12, glide=[75.0, 3.0, 18.9, 120.0, 101, -500.0],
                    target=[4000.0, 400e3, 10e3], tmax=2400.0),
    'URANUS': dict(vehicle=[3000, 200.0, 0.36, 63.617, 0.0, 1.125], h0=999.9, v0=27.59, efpa=-11.95,
                   efpa_sd=0.15, glide=[83.0, 9.0, 16.0, 120.0, 101, -500.0],
                   target=[4000.0, 550e3, 10e3], tmax=2400.0),
    'TITAN': dict(vehicle=[818, 90.0, 0.25, 11.045, 0.0, 0.91], h0=999.9, v0=6.5, efpa=-35.0,
                  efpa_sd=0.35, glide=[56.0, 54.0, 0.5, 100.0, 101, -1000.0],
                  target=[1700.0, 1700.0, 50.0], tmax=3000.0),
}
DRAG = {
    'VENUS': dict(vehicle=[68.2, 38.1, 0.0, 3.1416, 0.0, 0.10], h0=149.99, v0=11.0, efpa=-5.42,
                  efpa_sd=0.05, beta=[38.1, 7.5], entry=[6.0, 80.0, 101, -300.0],
                  target=[200.0, 2000.0, 50.0], tmax=2400.0),
    'MARS': dict(vehicle=[25.97, 66.4, 0.0, 0.19635, 0.0, 0.0563], h0=149.99, v0=5.74, efpa=-11.88,
                 efpa_sd=0.12, beta=[66.4, 4.72], entry=[2.0, 15.0, 101, -200.0],
                 target=[450.0, 450.0, 20.0], tmax=2400.0),
    'EARTH': dict(vehicle=[25.97, 66.4, 0.0, 0.19635, 0.0, 0.0563], h0=124.99, v0=9.8, efpa=-4.78,
                  efpa_sd=0.07, beta=[66.4, 4.72], entry=[5.0, 50.0, 101, -200.0],
                  target=[180.0, 1760.0, 50.0], tmax=2400.0),
}

_TABLE = {}


def base_table(pid):
    """Average profile of a planet, read by the harness's own parser."""
    if pid not in _TABLE:
        p = PLANETS[pid]
        rows = []
        with open(os.path.join(REPO, 'atmdata', p['file'])) as f:
            for line in f:
                line = line.split('#')[0].split()
                if line:
                    rows.append([float(x) for x in line])
        a = np.array(rows)
        h = a[:, p['cols'][0]] * (1e3 if p['km'] else 1.0)
        rho = a[:, p['cols'][3]]
        o = np.argsort(h, kind='stable')
        h, rho = h[o], rho[o]
        keep = np.concatenate([[True], np.diff(h) > 0]) & (rho > 0)
        _TABLE[pid] = (h[keep], np.log(rho[keep]))
    return _TABLE[pid]


class SimInterrupt(KeyboardInterrupt):
    """The user pressed Ctrl-C, or a resource ran out, during a flight."""


class SimFailure(RuntimeError):
    """A transient failure raised by the environment."""


class BudgetExceeded(BaseException):
    """Deterministic step budget of a run is exhausted."""


class SimAtmosphere:
    """Density of the simulated planet at altitude h (m); kg/m3."""

    def __init__(self, pid, dist=None, budget=None):
        self.h, self.lr = base_table(pid)
        self.top = float(self.h[-1])
        self.dist = dist or []
        self.calls = 0                 # scalar evaluations
        self.points = 0
        self.interrupt_at = None       # raise at this evaluation
        self.interrupt_cls = SimInterrupt
        self.interrupted = 0
        self.budget = budget
        self.yield_hook = None         # thread scheduler
        self.lowest = float('inf')     # lowest altitude asked for (scalar)

    def __deepcopy__(self, memo):
        return self                    # one world, however often AMAT copies the planet

    def factor(self, h):
        f = np.zeros_like(h)
        for d in self.dist:
            if d['k'] == 'bias':
                f = f + d['a']
            elif d['k'] == 'bump':
                f = f + d['a'] * np.exp(-0.5 * ((h - d['c']) / d['w']) ** 2)
            elif d['k'] == 'wave':
                f = f + d['a'] * np.sin(2 * np.pi * h / d['w'] + d['p'])
            elif d['k'] == 'shear':
                f = f + d['a'] / (1.0 + np.exp(np.clip((h - d['c']) / d['w'], -60, 60)))
            elif d['k'] == 'below':      # different world below c, same above
                x = np.clip((d['c'] - h) / d['w'], 0.0, 1.0)
                f = f + d['a'] * x * x * (3 - 2 * x)
            else:
                raise HarnessError('disturbance ' + d['k'])
        return f

    def pure(self, h):
        """The density itself: no counting, no faults."""
        h = np.asarray(h, dtype=float)
        lr = np.interp(h, self.h, self.lr)
        lr = lr + np.where(h < self.h[0], (self.h[0] - h) * (self.lr[0] - self.lr[1]) / (self.h[1] - self.h[0]), 0.0)
        lr = lr + np.where(h > self.top, (h - self.top) * (self.lr[-1] - self.lr[-2]) / (self.h[-1] - self.h[-2]), 0.0)
        return np.exp(lr + self.factor(h))

    def __call__(self, h):
        self.calls += 1
        if self.budget is not None and self.calls > self.budget:
            raise BudgetExceeded()
        if self.interrupt_at is not None and self.calls >= self.interrupt_at:
            self.interrupt_at = None
            self.interrupted += 1
            raise self.interrupt_cls('injected at evaluation %d' % self.calls)
        if self.yield_hook is not None:
            self.yield_hook('density')
        h = np.asarray(h, dtype=float)
        if h.ndim == 0:
            self.lowest = min(self.lowest, float(h))
        return self.pure(h)


class TableAtmosphere(SimAtmosphere):
    """A piecewise-linear look-up with the same fault hooks (campaign profiles)."""

    def __init__(self, inner, parent):
        self.__dict__.update(parent.__dict__)
        self.inner = inner
        self.parent = parent

    def pure(self, h):
        return self.inner(h)


class MachDrag:
    """A user's drag coefficient as a function of the Mach number."""

    def __init__(self, cd, a, m, w):
        self.cd, self.a, self.m, self.w = cd, a, m, w

    def __call__(self, mach):
        return self.cd * (1.0 + self.a * np.tanh((mach - self.m) / self.w))


# ---------------------------------------------------------------- building
def make_planet(pid, atm=None, load=True):
    from .amat import Planet
    p = Planet(pid)
    t = PLANETS[pid]
    if load:
        p.loadAtmosphereModel(os.path.join(REPO, 'atmdata', t['file']), *t['cols'],
                              heightInKmFlag=t['km'])
    for k, v in t.get('set', {}).items():
        setattr(p, k, v)
    if atm is not None:
        p.density_int = atm
    return p


def make_vehicle(s, planet, cls=None):
    """s: scenario dict (see scenario())."""
    from .amat import Vehicle
    v = (cls or Vehicle)('sim', *s['vehicle'], planet)
    set_state(v, s)
    if s.get('cdm'):
        v.userDefinedCDMach = True
        v.setCDMachFunction(MachDrag(v.CD, *s['cdm']))
    v.setSolverParams(s['tol'])
    v.setTargetOrbitParams(*s['target'])
    if s['kind'] == 'lift':
        v.setMaxRollRate(s['roll'])
        v.setEquilibriumGlideParams(*s['glide'])
    else:
        v.setDragModulationVehicleParams(*s['beta'])
        v.setDragEntryPhaseParams(*s['entry'])
    return v


def set_state(v, s):
    v.setInitialState(s['h0'], s['lon'], s['lat'], s['v0'], s['psi'], s['efpa'], s['dr0'], s['hl0'])


def fly(v, s):
    """One guided flight."""
    if s['kind'] == 'lift':
        f = v.propogateGuidedEntry if s['solver'] == 1 else v.propogateGuidedEntry2
        f(s['ts'], s['dt'], s['tmax'])
    else:
        f = v.propogateGuidedEntryD if s['solver'] == 1 else v.propogateGuidedEntryD2
        f(s['ts'], s['ts_exit'], s['dt'], s['tmax'])


def scenario(rng, kinds=('lift', 'drag'), planets=None, fast=True, calm=False, fine=False, wide=0.0):
    """A random flight scenario.  `fast` keeps one flight well below a second."""
    kind = rng.choice(kinds)
    lib = LIFT if kind == 'lift' else DRAG
    names = [p for p in sorted(lib) if planets is None or p in planets]
    pid = rng.choice(names)
    t = copy.deepcopy(lib[pid])
    s = dict(kind=kind, planet=pid, solver=rng.choice([1, 2]), **t)
    s['lon'] = round(rng.uniform(-180, 180), 3)
    s['lat'] = round(rng.uniform(-60, 60), 3)
    s['psi'] = round(rng.uniform(-60, 60) if rng.random() < 0.8 else rng.uniform(-180, 180), 3)
    s['efpa'] = round(t['efpa'] + rng.gauss(0, 1.0 if calm else 2.0) * t['efpa_sd'], 4)
    s['v0'] = round(t['v0'] * (1 + rng.gauss(0, 0.0005)), 4)
    if pid in ('NEPTUNE', 'URANUS'):
        s['target'][1] = rng.choice([20e3, 50e3, 120e3, 400e3])
    mv = s['vehicle']
    mv[0] = round(mv[0] * rng.uniform(0.8, 1.25), 3)          # mass alone changes CD
    if kind == 'lift':
        mv[1] = round(mv[1] * rng.uniform(0.95, 1.05), 3)
        mv[2] = round(mv[2] * rng.uniform(0.92, 1.08), 4)
    else:
        s['beta'][0] = round(s['beta'][0] * rng.uniform(0.95, 1.05), 3)
        mv[1] = rng.choice([s['beta'][0], round(s['beta'][0] * rng.uniform(0.5, 2.0), 3)])
    s['dr0'] = rng.choice([0.0, 0.0, round(rng.uniform(0, 500), 2)])
    s['hl0'] = rng.choice([0.0, 0.0, round(rng.uniform(0, 5000), 2)])
    s['tol'] = 1e-6
    if kind == 'lift':
        s['roll'] = rng.choice([5.0, 10.0, 20.0, 30.0, 60.0])
        if fine:
            s['ts'], s['dt'] = rng.choice([(2.0, 0.5), (4.0, 1.0), (5.0, 1.0)])
        else:
            s['ts'], s['dt'] = rng.choice([(5.0, 1.0), (10.0, 2.0), (10.0, 5.0), (20.0, 4.0), (30.0, 10.0)])
    else:
        if fine:
            s['ts'], s['ts_exit'], s['dt'] = rng.choice([(1.0, 2.0, 0.5), (2.0, 5.0, 1.0)])
        else:
            s['ts'], s['ts_exit'], s['dt'] = rng.choice([(2.0, 5.0, 1.0), (4.0, 10.0, 2.0), (3.0, 6.0, 1.5)])
        if pid == 'VENUS':
            s['ts'], s['ts_exit'], s['dt'] = rng.choice([(6.0, 15.0, 3.0), (8.0, 20.0, 4.0)])
    if wide and rng.random() < wide:
        widen(rng, s)
    return s


def widen(rng, s):
    """Other designs than the published ones: any of the vehicle, guidance and step settings."""
    mv = s['vehicle']
    some = lambda: rng.random() < 0.5
    log = lambda a, b: math.exp(rng.uniform(math.log(a), math.log(b)))
    if some():
        mv[0] = round(mv[0] * log(0.2, 5.0), 3)
    if some():
        mv[5] = round(mv[5] * log(0.3, 3.0), 4)
    if some():
        s['h0'] = round(s['h0'] * rng.uniform(0.9, 0.999), 3)
    if s['kind'] == 'lift':
        if some():
            mv[1] = round(mv[1] * log(0.5, 2.0), 3)
        if some():
            mv[2] = round(rng.choice([rng.uniform(0.03, 0.2), rng.uniform(0.4, 1.0)]), 4)
        if some():
            s['roll'] = rng.choice([1.0, 2.0, 90.0, 180.0])
        g = s['glide']
        if some():
            g[0], g[1] = round(g[0] * log(0.1, 5.0), 3), round(g[1] * log(0.1, 5.0), 3)
        if some():
            g[4] = rng.choice([5, 11, 51, 301])
        if some():
            g[2] = round(s['v0'] * rng.uniform(0.1, 0.95), 3)
        if some():
            g[5] = round(rng.choice([-1, -1, 1]) * log(10.0, 3000.0), 2)
        if some():
            g[3] = round(g[3] * rng.uniform(0.3, 1.5), 2)
    else:
        b, r = s['beta']
        if some():
            b = round(b * log(0.5, 2.5), 3)
        if some():
            r = round(rng.choice([rng.uniform(1.05, 2.0), rng.uniform(8.0, 15.0)]), 3)
        s['beta'] = [b, r]
        e = s['entry']
        if some():
            e[0] = round(s['v0'] * rng.uniform(0.1, 0.98), 3)
        if some():
            e[2] = rng.choice([5, 11, 51, 301])
        if some():
            e[3] = round(rng.choice([-1, -1, 1]) * log(10.0, 2000.0), 2)
        if some():
            e[1] = round(e[1] * rng.uniform(0.3, 1.5), 2)


def disturbances(rng, pid, n=None, strength=1.0):
    """Seeded density disturbances inside the altitude band that matters."""
    lo, hi = {'NEPTUNE': (80e3, 600e3), 'URANUS': (80e3, 700e3), 'TITAN': (200e3, 800e3),
              'VENUS': (90e3, 145e3), 'MARS': (25e3, 120e3), 'EARTH': (55e3, 120e3),
              'JUPITER': (60e3, 400e3), 'SATURN': (60e3, 500e3)}[pid]
    out = []
    for _ in range(rng.randint(0, 4) if n is None else n):
        k = rng.choice(['bias', 'bump', 'wave', 'shear'])
        c = round(rng.uniform(lo, hi), 1)
        a = round(rng.choice([-1, 1]) * rng.uniform(0.05, 0.45) * strength, 4)
        w = round(rng.uniform(0.01, 0.15) * (hi - lo), 1)
        d = {'k': k, 'a': a}
        if k in ('bump', 'shear'):
            d.update(c=c, w=w)
        if k == 'wave':
            d.update(w=round(rng.uniform(0.08, 0.6) * (hi - lo), 1), p=round(rng.uniform(0, 6.28), 3),
                     a=round(a * 0.6, 4))
        out.append(d)
    return out


# what a user configures on a vehicle / planet (inputs, never results)
VEHICLE_CONFIG = ['vehicleID', 'mass', 'beta', 'LD', 'A', 'alpha', 'RN', 'userDefinedCDMach',
                  'CD', 'CL', 'h0_km', 'theta0_deg', 'phi0_deg', 'v0_kms', 'psi0_deg', 'gamma0_deg',
                  'drange0_km', 'heatLoad0', 'tol', 'maxRollRate', 'beta1', 'betaRatio',
                  'target_peri_km', 'target_apo_km', 'target_apo_km_tol', 'Ghdot', 'Gq',
                  'v_switch_kms', 'lowAlt_km', 'numPoints_lowAlt', 'hdot_threshold',
                  'NPOS', 'NMONTE', 'atmfiles', 'heightCol', 'densLowCol', 'densAvgCol',
                  'densHighCol', 'densTotalCol', 'densSD_percCol', 'heightInKmFlag', 'nominalEFPA',
                  'EFPA_1sigma_value', 'nominalLD', 'LD_1sigma_value', 'nominalbeta1',
                  'beta1_1sigma_value', 'timeStep', 'timeStepEntry', 'timeStepExit', 'dt',
                  'maxTimeSecs', 'atmSigmaFactor']
STATE_CONFIG = ['h0_km', 'theta0_deg', 'phi0_deg', 'v0_kms', 'psi0_deg', 'gamma0_deg',
                'drange0_km', 'heatLoad0']
PLANET_CONFIG = ['ID', 'RP', 'OMEGA', 'GM', 'rho0', 'CPCV', 'J2', 'J3', 'h_thres', 'h_skip',
                 'h_trap', 'h_low', 'EARTHG', 'Vref', 'tau', 'OMEGAbar']


def config_of(v, more=()):
    """Observable configuration of a vehicle and of its planet."""
    out = {}
    for n in VEHICLE_CONFIG + list(more):
        if hasattr(v, n):
            out['vehicle.' + n] = copy.copy(getattr(v, n))
    p = v.planetObj
    out['planet'] = id(p)
    for n in PLANET_CONFIG:
        if hasattr(p, n):
            out['planet.' + n] = getattr(p, n)
    hs = np.linspace(0.0, p.h_skip, 41)
    for n in ('density_int', 'temp_int', 'pressure_int', 'sonic_int'):
        if hasattr(p, n):
            f = getattr(p, n)
            g = f.pure if isinstance(f, SimAtmosphere) else f
            out['planet.' + n] = np.asarray(g(hs), dtype=float).tobytes()
    return out


def config_diff(a, b, ignore=()):
    bad = []
    for k in a:
        if k in ignore or k.split('.')[-1] in ignore:
            continue
        if k not in b:
            bad.append('%s disappeared' % k)
            continue
        x, y = a[k], b[k]
        same = (x == y) if not isinstance(x, float) or not isinstance(y, float) else \
            (x == y or (math.isnan(x) and math.isnan(y)))
        if not same:
            if isinstance(x, bytes):
                bad.append('%s now gives different values' % k)
            else:
                bad.append('%s was %r, now %r' % (k, x, y))
    return bad


RECORD = ['t_min_full', 'h_km_full', 'v_kms_full', 'theta_deg_full', 'phi_deg_full', 'psi_deg_full',
          'gamma_deg_full', 'drange_km_full', 'acc_net_g_full', 'dyn_pres_atm_full',
          'stag_pres_atm_full', 'q_stag_total_full', 'heatload_full']
RESULTS = ['terminal_apoapsis', 'terminal_periapsis', 'apoapsis_perc_error', 'periapsis_raise_DV',
           'apoapsis_raise_DV']
STEPS = ['t_step_array', 'delta_deg_array', 'hdot_array', 'h_step_array', 'density_mes_array']


def record_of(v):
    out = {n: np.array(getattr(v, n), dtype=float) for n in RECORD}
    for n in RESULTS:
        out[n] = np.array([float(getattr(v, n))])
    for n in STEPS:
        if getattr(v, n, None) is not None:
            out[n] = np.array(getattr(v, n), dtype=float)
    return out


def same(a, b, rtol=1e-7, atol=1e-9):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    return bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))


def record_diff(a, b, rtol=1e-7, names=None):
    for n in (names or a):
        if n not in b:
            return '%s is missing' % n
        if not same(a[n], b[n], rtol):
            x, y = a[n], b[n]
            if x.shape != y.shape:
                return '%s has %d entries instead of %d' % (n, x.size, y.size)
            i = int(np.argmax(np.abs(np.nan_to_num(x - y))))
            return '%s[%d] is %.12g instead of %.12g' % (n, i, x.ravel()[i], y.ravel()[i])
    return None


def scratch(*parts):
    d = os.path.join(os.environ['SIM_SCRATCH'], *parts)
    os.makedirs(d, exist_ok=True)
    return d
