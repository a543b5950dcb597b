"""
Guided flights in the simulated world, cut into guidance cycles.

The vehicle, the planet, the solvers and the guidance are the real code; the
atmosphere is the simulated one.  A `Flight` holds what a user can see after
the flight: the concatenated record, the per-cycle logs and the results.
"""
import numpy as np

from . import ref, world
from .core import HarnessError, Violation

STEP_BUDGET = 400000          # density evaluations of one flight

REAL = ['AMAT.vehicle (propagation, guidance, loads, heating)', 'AMAT.planet',
        'scipy odeint / solve_ivp']
STUB = ['planetary atmosphere: seeded density field put at the density look-up seam']


def generate(rng, i, kinds=('lift', 'drag'), tol=1e-8, calm=None, strength=0.5, wide=0.35, **kw):
    """A flight case.  Kinds and planets rotate so that a few cases cover all."""
    order = [('lift', 'NEPTUNE'), ('drag', 'VENUS'), ('lift', 'URANUS'), ('drag', 'MARS'),
             ('lift', 'TITAN'), ('drag', 'EARTH')]
    order = [o for o in order if o[0] in kinds]
    kind, pid = order[i % len(order)]
    if calm is None:
        calm = rng.random() < 0.8
    s = world.scenario(rng, kinds=(kind,), planets=[pid], calm=calm, wide=wide, **kw)
    s['solver'] = 1 + (i // len(order)) % 2
    s['tol'] = tol
    if kind == 'lift' and rng.random() < 0.15:       # drag coefficient by Mach number
        s['cdm'] = [round(rng.uniform(-0.4, 0.4), 3), round(rng.uniform(2.0, 30.0), 2), round(rng.uniform(1.0, 10.0), 2)]
    return {'s': s, 'dist': world.disturbances(rng, pid, strength=strength if calm else 1.0)}


def thicken(rng, case):
    """Put a layer of dense air high up, where there is usually next to none."""
    s = case['s']
    pid = s['planet']
    top = s['h0'] * 1e3
    c = top * rng.uniform(0.8, 0.99)
    h, lr = world.base_table(pid)
    base = float(np.interp(c, h, lr))
    if c > h[-1]:
        base += (c - h[-1]) * (lr[-1] - lr[-2]) / (h[-1] - h[-2])
    beta = s['beta'][0] if s['kind'] == 'drag' else s['vehicle'][1]
    rho = 2.0 * rng.uniform(1.0, 8.0) * beta / (s['v0'] * 1e3) ** 2
    case['dist'] = [d for d in case['dist'] if d['k'] != 'bias'] + [
        {'k': 'bump', 'a': round(float(np.log(rho)) - base, 3), 'c': round(c, 1), 'w': round(top * rng.uniform(0.02, 0.05), 1)}]


def shrink(case):
    import copy
    for k in range(len(case['dist'])):
        c = copy.deepcopy(case)
        del c['dist'][k]
        yield c
    s = case['s']
    for name, value in (('dr0', 0.0), ('hl0', 0.0), ('lon', 0.0), ('lat', 0.0), ('psi', 0.0)):
        if s.get(name) not in (value, None):
            c = copy.deepcopy(case)
            c['s'][name] = value
            yield c
    if s.get('cdm'):
        c = copy.deepcopy(case)
        del c['s']['cdm']
        yield c
    tpl = (world.LIFT if s['kind'] == 'lift' else world.DRAG)[s['planet']]
    for name in ('efpa', 'v0', 'vehicle'):
        if s[name] != tpl[name]:
            c = copy.deepcopy(case)
            c['s'][name] = copy.deepcopy(tpl[name])
            yield c


def reference(s, planet, density):
    """The reference world of a scenario."""
    w = ref.World(planet, density)
    if s.get('cdm'):
        f, sonic = world.MachDrag(1.0, *s['cdm']), planet.sonic_int
        w.cdm = lambda h, v: f(v / np.asarray(sonic(h), dtype=float))
    return w


class Flight:
    def __init__(self, s, v, atm):
        self.s, self.v, self.atm = s, v, atm
        self.planet = v.planetObj
        self.w = reference(s, self.planet, atm.pure)
        self.rec = world.record_of(v)
        self.cut()

    # ------------------------------------------------------------ structure
    def cut(self):
        """Samples -> guidance cycles, using only the record and the cycle log."""
        r = self.rec
        n = {k: len(r[k]) for k in world.RECORD}
        if len(set(n.values())) != 1:
            raise Violation('record-columns-differ', 'the columns of the record have different '
                            'lengths: %r' % n)
        self.t = r['t_min_full'] * 60.0
        if len(self.t) < 2:
            raise Violation('record-empty', 'the record has %d samples' % len(self.t))
        for k in world.RECORD:
            if not np.all(np.isfinite(r[k])):
                raise Violation('record-not-finite', '%s contains NaN or infinity' % k)
        joins = np.nonzero(np.diff(self.t) == 0.0)[0]
        self.start = np.concatenate([[0], joins + 1])          # first sample of each cycle
        self.end = np.concatenate([joins, [len(self.t) - 1]])  # last sample of each cycle
        self.ncyc = len(self.start)
        self.y = ref.states(r, self.w)
        self.tstep = r['t_step_array'] * 60.0
        self.bank = r['delta_deg_array']
        # first cycle of the exit phase
        ts = float(self.v.t_switch) * 60.0
        self.t_switch = ts
        at = np.nonzero(np.abs(self.t[self.end] - ts) < 1e-9)[0]
        self.k_exit = int(at[0]) + 1 if len(at) else None
        # cycles of a trapped vehicle take no time: several cycles end at the switch
        if len(at) > 1 and len(r.get('h_step_array', ())) - 1 in at:
            self.k_exit = len(r['h_step_array'])
        self.still = self.end == self.start                    # cycles without duration

    def cycle_of(self):
        """Cycle number of every sample."""
        c = np.zeros(len(self.t), dtype=int)
        c[self.start[1:]] = 1
        return np.cumsum(c)

    def beta_of_cycle(self):
        s = self.s
        if s['kind'] == 'lift':
            return np.full(self.ncyc, s['vehicle'][1])
        b = np.full(self.ncyc, s['beta'][0])
        if self.k_exit is not None:
            b[self.k_exit:] = s['beta'][0] * s['beta'][1]
        return b

    @property
    def LD(self):
        return self.s['vehicle'][2]

    def need_log(self):
        if len(self.bank) != self.ncyc or len(self.tstep) != self.ncyc:
            raise Violation('cycle-log-length',
                            'the record has %d guidance cycles, the bank-angle log %d entries and '
                            'the time log %d' % (self.ncyc, len(self.bank), len(self.tstep)))
        if self.k_exit is None:
            raise Violation('switch-not-in-record', 'the reported switch time %.6f s is not the '
                            'end of any guidance cycle' % self.t_switch)

    # -------------------------------------------------------------- outcome
    def fate(self):
        h = self.rec['h_km_full'][-1] * 1e3
        if h > self.planet.h_skip - 60e3 and self.rec['gamma_deg_full'][-1] > 0:
            return 'exit'
        return 'trapped'

    def describe(self, out):
        s = self.s
        out.probe('flights')
        out.probe('%s-%s-solver%d' % (s['planet'].lower(), s['kind'], s['solver']))
        out.probe('fate-' + self.fate())
        out.probe('guidance-cycles', self.ncyc)
        out['sim_s'] += float(self.t[-1])
        for d in self.atm.dist:
            out.fault('density-' + d['k'])
        for k in world.RECORD + world.STEPS:
            if k in self.rec:
                out.array(k, self.rec[k])
        out['nontrivial'] = self.ncyc >= 4
        out['key'] = out['log']


def fly(case, atm=None, vehicle=None, budget=STEP_BUDGET):
    """Fly a case on fresh objects (or on `vehicle`) and return the Flight."""
    s = case['s']
    if atm is None:
        atm = world.SimAtmosphere(s['planet'], case['dist'], budget=budget)
    v = vehicle
    if v is None:
        v = world.make_vehicle(s, world.make_planet(s['planet'], atm))
        if s.get('skip_h0'):                        # the atmosphere ends where the flight starts, as in AMAT's examples
            v.planetObj.h_skip = s['h0'] * 1e3
    else:
        v.planetObj.density_int = atm
        world.set_state(v, s)
    try:
        world.fly(v, s)
    except world.BudgetExceeded:
        raise Violation('no-termination', 'the flight was still running after %d density '
                        'evaluations' % budget)
    return Flight(s, v, atm)
