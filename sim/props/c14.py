"""C14: the bank angle follows the guidance law within the roll-rate limit."""
import numpy as np

from .. import flight, ref
from ..core import Violation

QUICK, THOROUGH = 72, 2500
RULE = ('a run is one guided lift-modulation flight in which the bank angle changes in at least three '
        'cycles; distinct = different event log')
REAL, STUB = flight.REAL, flight.STUB + ['reference guidance law as oracle']
shrink = flight.shrink


def generate(rng, i, tier):
    c = flight.generate(rng, i, kinds=('lift',), tol=1e-6)
    s = c['s']
    s['roll'] = rng.choice([0.5, 1.0, 2.0, 5.0, 10.0, 20.0, 60.0])
    s['glide'][0] = round(s['glide'][0] * rng.choice([0.3, 1.0, 3.0]), 3)
    s['glide'][1] = round(s['glide'][1] * rng.choice([0.3, 1.0, 3.0]), 3)
    if rng.random() < 0.3:
        s['planet0_bank'] = True
    return c


def run(case, out):
    s = case['s']
    f = flight.fly(case)
    f.describe(out)
    f.need_log()
    b = f.bank
    out['nontrivial'] = int(np.sum(np.abs(np.diff(b)) > 1e-9)) >= 3
    if abs(b[0]) > 1e-12:
        raise Violation('initial-bank', 'the flight starts at bank %.6g deg, not lift-up' % b[0])
    lim = s['roll'] * s['ts']
    y0 = f.y[f.start]
    v = f.v
    mass, beta, LD, A = s['vehicle'][0], s['vehicle'][1], s['vehicle'][2], s['vehicle'][3]
    CL = LD * mass / (beta * A)
    lo, hi = ref.glide_band(f.w, s, mass, CL, A, y0)
    sat = 0
    for k in range(1, f.ncyc):
        if k >= f.k_exit:
            lo[k] = hi[k] = 0.0
        want = [b[k - 1] + np.clip(c - b[k - 1], -lim, lim) for c in (lo[k], hi[k])]
        if not (min(want) - 1e-6 <= b[k] <= max(want) + 1e-6):
            cls = 'exit-bank' if k >= f.k_exit else 'glide-bank'
            raise Violation(cls, 'guidance cycle %d (t=%.3f s): previous bank %.6f deg, command %.6f deg, at most '
                            '%.6f deg per cycle, so %.6f deg is due; the cycle flew %.6f deg'
                            % (k, f.t[f.start[k]], b[k - 1], hi[k], lim, want[1], b[k]))
        sat += abs(abs(b[k] - b[k - 1]) - lim) < 1e-9
    out.probe('rate-limited-cycles', sat)
    out.probe('exit-phase-cycles', f.ncyc - f.k_exit)
    out.probe('full-lift-down-commands', int(np.sum(lo[1:f.k_exit] > 179.99)))
    if np.any(b < -1e-9) or np.any(b > 180 + 1e-9):
        raise Violation('bank-range', 'bank angle outside [0, 180] deg: %.6f .. %.6f' % (b.min(), b.max()))
