"""C03: the dispersions of a campaign are the requested ones, independent of each other."""
import math
import os

import numpy as np
from scipy import stats

from .. import campaign as C, world
from ..core import HarnessError, Violation

QUICK, THOROUGH = 10, 200
RULE = ('a run is one campaign of several hundred runs whose recorded inputs are tested against the requested '
        'distributions; distinct = different campaign')
REAL, STUB = C.REAL, C.STUB
ASSUMPTIONS = ['the vehicle starts on its way out of the atmosphere, so that a run takes milliseconds: sampling, '
               'loading and recording are those of any campaign',
               'limits are set at a false-alarm probability below 1e-6 per test']
P = 1e-8


def generate(rng, i, tier):
    big = i >= 5
    d = C.describe(rng, C.ORDER[i % 5], 1200 if big else 300, skim=True, nfiles=rng.choice([2, 3, 4, 5] if big else [1, 4, 6, 9]))
    s = d['s']
    top = world.make_planet(s['planet'], load=False).h_skip / 1e3
    s['h0'] = round(top * 0.96, 3)
    s['efpa'] = abs(s['efpa'])
    if s['kind'] == 'lift':
        s['ts'], s['dt'] = 60.0, 20.0
    d.update(npos=40, nmonte=rng.choice([3, 5, 6, 11]) if big else rng.choice([1, 3, 6, 10]),
             efpa_sd=round(rng.uniform(0.02, 0.3), 4), ld_sd=round(rng.choice([0.0, 0.01, 0.03]) if not big else 0.02, 4),
             beta_sd=round(rng.choice([0.0, 1.0]) if not big else 1.5, 4), sigma=rng.choice([1, 0.4, 1.8]))
    # dispersions far below and at zero; fewer heights than profiles in a file
    if rng.random() < (0.2 if big else 0.8):
        small = lambda: rng.choice([0.0, round(10 ** rng.uniform(-4.7, -3), 7), round(10 ** rng.uniform(-4.7, -3), 7)])
        d.update(efpa_sd=small(), ld_sd=small(), beta_sd=small() * 30)
    if rng.random() < (0.3 if big else 0.8):
        d.update(npos=rng.choice([4, 5]), nmonte=rng.choice([6, 8, 11]))
    return {'d': d}


def normal(name, x, mean, sd):
    """x are independent draws from N(mean, sd)."""
    n = len(x)
    if sd == 0:
        if np.any(np.abs(x - mean) > 1e-12 * (1 + abs(mean))):
            raise Violation('not-nominal', '%s has no dispersion but varies (%.9g to %.9g)' % (name, x.min(), x.max()))
        return
    z = (x - mean) / sd
    tests = [('mean', abs(z.mean()) * math.sqrt(n), '%.4g instead of %.4g' % (x.mean(), mean)),
             ('standard deviation', abs(z.std() - 1) * math.sqrt(2 * n), '%.4g instead of %.4g' % (x.std(), sd))]
    for what, score, text in tests:
        if score > 5.5:
            raise Violation('wrong-dispersion', '%s over %d runs has %s %s' % (name, n, what, text))
    p = stats.kstest(z, 'norm').pvalue
    if p < P:
        raise Violation('wrong-dispersion', '%s over %d runs is not normally distributed (p=%.2g)' % (name, n, p))
    for lim in (0.5, 1.0, 1.5, 2.0, 2.5):
        for side in (1, -1):
            k = int(np.sum(side * z > lim))
            p = stats.binomtest(k, n, stats.norm.sf(lim)).pvalue
            if p < P:
                raise Violation('wrong-dispersion', '%s: %d of %d runs lie beyond %g standard deviations (%s side)'
                                % (name, k, n, lim, 'high' if side > 0 else 'low'))
    if len(np.unique(x)) < n:
        raise Violation('repeated-draw', '%s repeats exactly within %d runs' % (name, n))


def uniform(name, x, k):
    """x are independent draws from 0..k-1."""
    c = np.bincount(x, minlength=k)
    if len(c) > k:
        raise Violation('out-of-range', '%s %d of %d' % (name, len(c), k))
    if k > 1:
        p = stats.chisquare(c).pvalue
        if p < P:
            raise Violation('not-uniform', '%s over %d runs is chosen %r times (p=%.2g)' % (name, len(x), c.tolist(), p))


def run(case, out):
    d = case['d']
    base = world.scratch()
    data = os.path.join(base, 'data')
    C.write_files(d, data)
    folder = os.path.join(base, 'res')
    v = C.build(d)
    C.setup(v, d, data)
    C.seed(d)
    C.run(v, d, folder)
    runs = [C.read_run(d, folder, i + 1) for i in range(d['N'])]
    names = [os.path.join(data, n) for n in d['names']]
    for r in runs:
        if r['atmfile'] not in names:
            raise Violation('out-of-range', 'atmosphere file %r was not configured' % r['atmfile'])
        if r['profile'] != int(r['profile']) or r['profile'] < 1:
            raise Violation('out-of-range', 'profile %r' % r['profile'])
    col = {n: np.array([r[n] for r in runs]) for n in ('efpa', 'atmSigma', 'LD', 'profile')}
    col['file'] = np.array([names.index(r['atmfile']) for r in runs])
    normal('entry flight-path angle', col['efpa'], d['s']['efpa'], d['efpa_sd'])
    lift = d['s']['kind'] == 'lift'
    normal('atmosphere sigma', col['atmSigma'], 0.0, d['sigma'] if lift else 1.0)
    if lift:
        normal('L/D', col['LD'], d['s']['vehicle'][2], d['ld_sd'])
    else:
        col['beta1'] = np.array([r['beta1'] for r in runs])
        normal('ballistic coefficient', col['beta1'], d['s']['beta'][0], d['beta_sd'])
    uniform('atmosphere file', col['file'], len(names))
    uniform('profile', col['profile'].astype(int) - 1, d['nmonte'])
    # independence: between the inputs of a run, and between successive runs
    varies = lambda x: x.std() > 1e-9 * (1 + np.abs(x).max())
    keys = [k for k in sorted(col) if varies(col[k])]
    n = d['N']
    lim = 5.5 / math.sqrt(n)
    for i, a in enumerate(keys):
        for b in keys[i:]:
            for lag in (0, 1, 2):
                if a == b and lag == 0:
                    continue
                x, y = col[a][lag:], col[b][:n - lag]
                for p, q in ((x, y), (np.abs(x - x.mean()), np.abs(y - y.mean()))):
                    if not (varies(p) and varies(q)):
                        continue
                    r = abs(np.corrcoef(p, q)[0, 1])
                    if r > lim:
                        raise Violation('not-independent', '%s and %s (%d runs apart) correlate: %.3f over %d runs'
                                        % (a, b, lag, r, n))
    k = len(names)
    if k > 1 and d['nmonte'] > 1:
        t = np.zeros((k, d['nmonte']))
        for f, p in zip(col['file'], col['profile'].astype(int)):
            t[f, p - 1] += 1
        p = stats.chi2_contingency(t).pvalue if t.min() >= 0 and t.sum(0).min() > 0 and t.sum(1).min() > 0 else 1.0
        if p < P:
            raise Violation('not-independent', 'file and profile are not chosen independently (p=%.2g)' % p)
    out.probe('campaigns')
    out.probe('runs', n)
    out.probe('variant-' + d['variant'])
    out.fault('dispersed-inputs', n)
    for c in sorted(col):
        out.array(c, col[c])
    out['nontrivial'] = True
    out['key'] = out['log']
