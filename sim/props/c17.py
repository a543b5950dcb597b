"""C17: every guided flight ends."""
import numpy as np

from .. import flight, ref, world
from ..core import Violation

QUICK, THOROUGH = 120, 4000
RULE = ('a run is one guided flight from a wide range of entry states, atmospheres and guidance settings; '
        'distinct = different event log')
REAL, STUB = flight.REAL, flight.STUB
shrink = flight.shrink
TIMEOUT_IS_VIOLATION = True
CPU_LIMIT = 100            # a run takes a few seconds


def generate(rng, i, tier):
    c = flight.generate(rng, i, tol=1e-6, calm=rng.random() < 0.3, strength=1.0)
    s = c['s']
    wild = rng.random()
    if wild < 0.55:
        s['efpa'] = round(rng.choice([rng.uniform(-2, 0.5), rng.uniform(-12, -2), rng.uniform(-30, -12),
                                      rng.uniform(-88, -30)]), 3)
        s['v0'] = round(s['v0'] * rng.choice([1.0, 0.6, 0.85, 1.2, 1.6]), 4)
    if rng.random() < 0.3:
        s['target'][1] = rng.choice([1.0, 500.0, 1e5, 1e7])
        s['target'][2] = rng.choice([1e-3, 10.0, 1000.0])
    if i % 6 == 5 and s['kind'] == 'drag' or i % 24 == 0:    # hardly descending at the start
        s['efpa'] = round(rng.uniform(-3.0, -0.05), 3)
    if rng.random() < 0.3:
        s['tmax'] = rng.choice([50.0, 300.0, 1200.0])
    if s['kind'] == 'lift' and rng.random() < 0.4:
        s['roll'] = rng.choice([0.1, 1.0, 180.0])
        s['glide'][5] = rng.choice([-5000.0, -100.0, 0.0, 100.0])
    if s['kind'] == 'drag' and rng.random() < 0.4:
        s['entry'][3] = rng.choice([-3000.0, -100.0, 0.0, 100.0])
        s['beta'][1] = rng.choice([1.01, 2.0, 20.0])
    if rng.random() < 0.3:
        c['dist'].append({'k': 'bias', 'a': rng.choice([-4.0, -2.0, 1.5])})
    v_switch = s['glide'][2] if s['kind'] == 'lift' else s['entry'][0]
    if rng.random() < 0.8:
        s['v0'] = max(s['v0'], round(v_switch * 1.05, 4))
    else:                                         # slower than the switch speed, at once or soon
        k = round(s['v0'] * rng.choice([0.8, 0.95, 0.999, 1.2]), 4)
        if s['kind'] == 'lift':
            s['glide'][2] = k
        else:
            s['entry'][0] = k
    if rng.random() < 0.25:                       # the exit altitude is the entry altitude, or was meant to be
        s['h0'] = rng.choice([float(round(s['h0'])), round(s['h0'] * rng.uniform(0.8, 1.0), rng.choice([0, 1, 3]))])
        s['skip_h0'] = True
    return c


def run(case, out):
    s = case['s']
    f = flight.fly(case, budget=1500000)
    f.describe(out)
    out['nontrivial'] = True
    out.probe('density-evaluations', f.atm.calls)
    r = f.rec
    p = f.planet
    h = r['h_km_full'][-1] * 1e3
    hdot = r['v_kms_full'][-1] * 1e3 * np.sin(np.radians(r['gamma_deg_full'][-1]))
    margin = abs(hdot) * (s['dt'] * 1.5) + 12e3
    top = h + margin > p.h_skip and hdot > 0
    if not top and hdot > -500.0:                 # a grazing flight leaves within its next time step
        z = ref.advance(f.w, f.y[-1:], np.array([s['dt']]), np.zeros(1), f.beta_of_cycle()[-1:], f.LD, 20)
        top = z[0, 0] - f.w.RP > p.h_skip - 1e3
    bottom = h - abs(hdot) * s['dt'] * 1.5 - 500.0 < max(p.h_trap, 20e3)
    vertical = r['gamma_deg_full'][-1] < -85.0
    out.probe('ended-' + ('top' if top else 'bottom' if bottom else 'vertical' if vertical else 'midair'))
    if not (top or bottom or vertical):
        raise Violation('ended-midair', 'the flight was given up at %.3f km after %.1f s, between the trap altitude '
                        '%.1f km and the exit altitude %.1f km' % (h / 1e3, f.t[-1], p.h_trap / 1e3, p.h_skip / 1e3))
