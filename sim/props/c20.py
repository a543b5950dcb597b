"""C20: the reported orbit and maneuver costs are those of the state at the end of the flight."""
import numpy as np

from .. import flight, ref, world
from ..core import Violation

QUICK, THOROUGH = 96, 3000
RULE = ('a run is one guided flight that leaves the atmosphere on a closed orbit; distinct = different '
        'event log')
REAL, STUB = flight.REAL, flight.STUB + ['two-body orbit mechanics as oracle']


def generate(rng, i, tier):
    c = flight.generate(rng, i, tol=1e-6)
    t = c['s']['target']
    if rng.random() < 0.5:
        t[0] = round(t[0] * rng.uniform(0.0, 2.0) if rng.random() < 0.6 else rng.uniform(-100, 40), 1)
    if rng.random() < 0.2:                        # far beyond a low target
        s = c['s']
        t[1] = rng.choice([20.0, 100.0, 300.0])
        if rng.random() < 0.6:
            k = round(s['v0'] * rng.uniform(0.9, 0.99), 3)
            if s['kind'] == 'lift':
                s['glide'][2] = k
            else:
                s['entry'][0] = k
    if rng.random() < 0.3:
        c['s']['psi'] = round(rng.uniform(-180, 180), 3)
    r = np.random.RandomState(rng.randrange(1 << 31))
    c['states'] = [[round(float(x), 4) for x in row] for row in
                   zip(r.uniform(0.2, 1.2, 12), r.uniform(0.75, 1.35, 12), r.uniform(0, 40, 12), r.uniform(-180, 180, 12),
                       r.uniform(-80, 80, 12), r.uniform(-180, 180, 12), r.uniform(0, 1, 12), r.uniform(0, 1, 12))]
    return c


def shrink(case):
    yield from flight.shrink(case)
    if len(case.get('states', [])) > 1:
        yield dict(case, states=case['states'][:len(case['states']) // 2])
        yield dict(case, states=case['states'][len(case['states']) // 2:])


def exits(f, case):
    """The same reports asked for other exit states and targets."""
    w, v = f.w, f.v
    for a, b, g, lon, lat, psi, tp, ta in case.get('states', []):
        alt = a * v.planetObj.h_skip
        vel = b * np.sqrt(w.GM / (w.RP + alt))
        y = np.array([[(w.RP + alt), np.radians(lon), np.radians(lat), vel, np.radians(psi), np.radians(g), 0.0]])
        apo, peri = (float(x[0]) for x in ref.apsides_km(w, y))
        if not 0 < apo < 200 * w.RP / 1e3:
            continue
        tp = (2 * tp - 1) * 0.3 * w.RP / 1e3
        ta = max(0, tp) + ta * 3 * w.RP / 1e3
        args = [float(y[0, k]) for k in (0, 3, 5, 1, 2, 4)]
        got = [float(v.compute_ApoapsisAltitudeKm(*args)), float(v.compute_PeriapsisAltitudeKm(*args)),
               float(v.compute_periapsis_raise_DV(peri, apo, tp)), float(v.compute_apoapsis_raise_DV(peri, apo, ta))]
        want = [apo, peri, ref.periapsis_raise(w, peri, apo, tp), ref.apoapsis_raise(w, peri, apo, ta)]
        for name, x, t in zip(('apoapsis (km)', 'periapsis (km)', 'periapsis raise (m/s)', 'apoapsis raise (m/s)'), got, want):
            if not abs(x - t) <= 1e-5 * max(1.0, abs(t)) * (1 + abs(apo) / (w.RP / 1e3)):
                raise Violation('exit-state', 'for the exit state %r and the target %.1f x %.1f km the %s is %.9g, not %.9g'
                                % (args, tp, ta, name, x, t))


def run(case, out):
    s = case['s']
    f = flight.fly(case)
    f.describe(out)
    apo, peri = (float(x[0]) for x in ref.apsides_km(f.w, f.y[-1:]))
    got = {k: float(f.rec[k][0]) for k in world.RESULTS}
    out.event(got)
    exits(f, case)
    bound = apo > 0
    out['nontrivial'] = bound and f.fate() == 'exit'
    out.probe('bound' if bound else 'unbound')
    lim = lambda x: 1e-6 * max(1.0, abs(x)) * (1 + abs(apo) / (f.w.RP / 1e3))
    tp, ta = s['target'][0], s['target'][1]

    def cmp(name, want, unit):
        if not abs(got[name] - want) <= lim(want):
            raise Violation(name.replace('_', '-'), '%s is reported as %.9g %s, the final state gives %.9g'
                            % (name, got[name], unit, want))
    if not bound:
        return
    cmp('terminal_apoapsis', apo, 'km')
    cmp('terminal_periapsis', peri, 'km')
    cmp('apoapsis_perc_error', (apo - ta) / ta * 100.0, '%')
    cmp('periapsis_raise_DV', ref.periapsis_raise(f.w, peri, apo, tp), 'm/s')
    cmp('apoapsis_raise_DV', ref.apoapsis_raise(f.w, tp, apo, ta), 'm/s')
