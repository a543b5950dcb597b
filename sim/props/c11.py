"""C11: loading an atmosphere is all or nothing."""
import copy
import os
import sys

import numpy as np

from .. import shim, world
from ..core import Violation
from .c05 import DAMAGE, damage, transparent

QUICK, THOROUGH = 150, 6000
RULE = ('a run is one planet and a history of 3 to 9 atmosphere loads, each from a good, damaged or missing file, with '
        'good or bad columns, under read faults or an interrupt while the file is read or the tables are built; '
        'distinct = different history')
REAL = ['AMAT.planet', 'numpy.loadtxt', 'scipy.interpolate']
STUB = ['libc open/read (LD_PRELOAD shim which forwards to the real calls)', 'atmosphere files (rewritten by the harness)']
ASSUMPTIONS = ['an interrupt strikes while the file is read or a table is built (inside NumPy or SciPy), not between two '
               'plain assignments: CPython does not deliver signals there']
ARRAYS = ['ATM', 'ATM_height', 'ATM_temp', 'ATM_pressure', 'ATM_density', 'ATM_sonic']
TABLES = ['temp_int', 'pressure_int', 'density_int', 'sonic_int']
QUERIES = ['density', 'tempvectorized', 'presvectorized', 'densityvectorized', 'avectorized', 'rho', 'rhovectorized',
           'pressurevectorized', 'temperaturevectorized', 'sonicvectorized', 'rho2', 'rhobar']


class Stop(KeyboardInterrupt):
    pass


def step(rng):
    s = {'planet': rng.choice(sorted(world.PLANETS)), 'kind': rng.choice(['cubic', 'cubic', 'linear', 'quadratic']),
         'thin': rng.choice([1, 1, 2, 5]), 'km': rng.choice(['', '', '', 'flip'])}
    k = rng.choice(['good', 'good', 'good', 'column', 'kind', 'damage', 'damage', 'values', 'fault', 'fault', 'interrupt',
                    'interrupt', 'interrupt'])
    s['k'] = k
    if k == 'column':
        s['col'], s['to'] = rng.randrange(4), rng.choice([50, -40, 9999, 'x', None])
    if k == 'kind':
        s['kind'] = rng.choice(['cubik', 'none', ''])
    if k == 'damage':
        s['damage'], s['frac'] = rng.choice(DAMAGE), round(rng.random(), 4)
    if k == 'values':
        s['value'], s['col'], s['frac'] = rng.choice(['nan', 'inf', '-1.0', '0.0', 'dup', 'swap', 'dash']), rng.randrange(4), \
            round(rng.random(), 4)
    if k == 'fault':
        s['plan'] = [{'act': rng.choice(['err', 'err', 'short']), 'frac': round(rng.random(), 4),
                      'arg': rng.choice(['EIO', 'EACCES', 'EMFILE', 'ENOENT', 'EINTR', 'ENOMEM'])}
                     for _ in range(rng.choice([1, 1, 3]))]
        for p in s['plan']:
            if p['act'] == 'short':
                p['arg'] = rng.randrange(1, 4096)
    if k == 'interrupt':
        s['frac'] = round(rng.random(), 5)
        s['cls'] = rng.choice(['stop', 'memory', 'runtime'])
    return s


def generate(rng, i, tier):
    return {'on': rng.choice(sorted(world.PLANETS)), 'h_thres': rng.random() < 0.3,
            'steps': [step(rng) for _ in range(rng.randrange(3, 10))]}


def shrink(case):
    for n in range(len(case['steps'])):
        if len(case['steps']) > 1:
            c = copy.deepcopy(case)
            del c['steps'][n]
            yield c
    if case['h_thres']:
        yield dict(case, h_thres=False)


def grid(pl):
    g = np.concatenate([np.linspace(-5e3, 1.1 * pl.h_skip, 61), np.linspace(1.7e3, 90e3, 23)])
    return g


def ask(pl, h):
    """Every public answer about the loaded atmosphere."""
    r = h + pl.RP
    a = {}
    for q in QUERIES:
        f = getattr(pl, q)
        try:
            with np.errstate(all='ignore'):
                if q == 'density':
                    a[q] = np.array([f(x) for x in h], dtype=float)
                elif q == 'rho':
                    a[q] = np.array([f(x, 0.1, 0.2) for x in r], dtype=float)
                elif q in ('rho2', 'rhobar'):
                    a[q] = np.array([f(x / pl.RP, 0.1, 0.2) for x in r], dtype=float)
                elif q in ('tempvectorized', 'presvectorized', 'densityvectorized', 'avectorized'):
                    a[q] = np.array(f(h), dtype=float)
                else:
                    a[q] = np.array(f(r), dtype=float)
        except (AttributeError, TypeError):    # nothing loaded yet
            a[q] = None
    for q in ARRAYS:
        x = getattr(pl, q, None)
        a[q] = None if x is None else np.array(x, dtype=float)
    for q in TABLES:
        x = getattr(pl, q, None)
        with np.errstate(all='ignore'):
            a[q] = None if x is None else np.array(x(h), dtype=float)
    return a


def constants(pl):
    return {k: v for k, v in vars(pl).items() if isinstance(v, (int, float, str, bool))}


def differ(a, b):
    out = []
    for k in a:
        x, y = a[k], b[k]
        if (x is None) != (y is None):
            out.append(k)
        elif x is not None and not (x.shape == y.shape and np.array_equal(x, y, equal_nan=True)):
            out.append(k)
    return out


def close(a, b):
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-9, atol=1e-300, equal_nan=True)


def parse(path):
    rows = []
    with open(path) as f:
        for line in f:
            w = line.split('#')[0].split()
            if w:
                rows.append([float(x) for x in w])
    if not rows or len({len(r) for r in rows}) != 1:
        raise ValueError('table')
    return np.array(rows)


def expected(path, cols, kind, km, pl, h):
    """The answers the file defines, from the harness's own reading of it."""
    from scipy.interpolate import interp1d
    a = parse(path)
    hh = a[:, cols[0]] * (1e3 if km else 1.0)
    T, p, d = a[:, cols[1]], a[:, cols[2]], a[:, cols[3]]
    with np.errstate(all='ignore'):
        s = np.sqrt(pl.CPCV * p / d)
        mk = lambda y, fill: interp1d(hh, y, kind=kind, fill_value=fill, bounds_error=False)
        t = dict(temp_int=mk(T, 0.0), pressure_int=mk(p, 0.0), density_int=mk(d, 0.0), sonic_int=mk(s, 1e20))
        w = {k: np.array(f(h)) for k, f in t.items()}
        w.update(ATM_height=hh, ATM_temp=T, ATM_pressure=p, ATM_density=d, ATM_sonic=s)
        w['ATM'] = a
        dens = np.where(h < 0, pl.rho0, np.where(h > pl.h_thres, 0.0, w['density_int']))
        w['density'] = dens
        # ranges in which the scalar and vector look-ups are both defined by the table
        w['tempvectorized'], w['presvectorized'] = w['temp_int'], w['pressure_int']
        w['densityvectorized'], w['avectorized'] = w['density_int'], w['sonic_int']
        h2 = (h + pl.RP) - pl.RP
        g = {k: np.array(f(h2)) for k, f in t.items()}
        w['rhovectorized'], w['pressurevectorized'] = g['density_int'], g['pressure_int']
        w['temperaturevectorized'], w['sonicvectorized'] = g['temp_int'], g['sonic_int']
    return w


def run(case, out):
    from ..amat import Planet
    base = world.scratch()
    data = os.path.join(base, 'd')
    os.makedirs(data)
    pl = Planet(case['on'])
    for k, v in world.PLANETS[case['on']].get('set', {}).items():
        setattr(pl, k, v)
    if case['h_thres']:
        pl.h_thres = 0.6 * pl.h_skip
    const = constants(pl)
    h = grid(pl)
    log = shim.Log(8000)
    for n, s in enumerate(case['steps']):
        t = world.PLANETS[s['planet']]
        cols, km = list(t['cols']), t['km']
        if s['km'] == 'flip':
            km = not km
        path = os.path.join(data, '%d.dat' % n)
        lines = open(os.path.join(world.REPO, 'atmdata', t['file'])).read().split('\n')
        body = [x for x in lines if x.split('#')[0].strip()][::s['thin']]
        if s['k'] == 'values':
            j = int(s['frac'] * len(body))
            w = body[j].split()
            if s['value'] == 'dup':
                body.insert(j, body[j])
            elif s['value'] == 'swap':
                body[j], body[0] = body[0], body[j]
            elif s['value'] == 'dash':
                w[cols[s['col']]] = '-'
                body[j] = ' '.join(w)
            else:
                w[cols[s['col']]] = s['value']
                body[j] = ' '.join(w)
            out.fault('value-' + s['value'])
        with open(path, 'w') as f:
            f.write('\n'.join(body) + '\n')
        if s['k'] == 'damage':
            damage(path, s['damage'], s['frac'])
            out.fault('data-' + s['damage'])
        if s['k'] == 'column':
            cols[s['col']] = s['to']
            out.fault('bad-column')
        if s['k'] == 'kind':
            out.fault('bad-kind')
        try:
            want = expected(path, cols, s['kind'], km, pl, h)
        except Exception:
            want = None
        before = ask(pl, h)
        call = lambda p: p.loadAtmosphereModel(path, *cols, intType=s['kind'], heightInKmFlag=km)
        transient = True
        calls = 0
        if s['k'] == 'fault' and want is not None:
            shim.arm(log, data + os.sep, [])
            call(Planet(case['on']))
            shim.disarm()
            ops = [r['op'] for r in log.records() if r['op'] in ('openr', 'read')]
            log.reset()
            plan = []
            for f in s['plan']:
                mask = ['read'] if f['act'] == 'short' else ['openr', 'read']
                plan.append({'at': int(f['frac'] * sum(o in mask for o in ops)), 'ops': mask, 'act': f['act'], 'arg': f['arg']})
            transient = transparent(s['plan'])
        if s['k'] == 'interrupt' and want is not None:
            calls = counted(lambda: call(Planet(case['on'])), None, None)
        err = None
        try:
            with np.errstate(all='ignore'):
                if s['k'] == 'fault' and want is not None:
                    shim.arm(log, data + os.sep, plan)
                    try:
                        call(pl)
                    finally:
                        shim.disarm()
                elif s['k'] == 'interrupt' and want is not None:
                    cls = {'stop': Stop, 'memory': MemoryError, 'runtime': world.SimFailure}[s['cls']]
                    transient = False
                    counted(lambda: call(pl), int(s['frac'] * calls), cls)
                else:
                    call(pl)
        except (Exception, Stop) as e:
            err = e
        hit = []
        if s['k'] == 'fault' and want is not None:
            hit = [r for r in log.records() if r['act'] != 'none']
            log.reset()
            for r in hit:
                out.fault('%s-%s' % (r['act'], r['op']))
        elif s['k'] == 'interrupt':
            out.fault('interrupt-' + s['cls'])
        after = ask(pl, h)
        what = 'load %d (%s %s)' % (n + 1, s['planet'], s['k'])
        out.event(n, s['k'], type(err).__name__ if err else 'ok')
        if constants(pl) != const:
            ks = [k for k in const if constants(pl).get(k) != const[k]]
            if ks:
                raise Violation('constants', '%s changed %s of the planet' % (what, ', '.join(ks)))
        if err is not None:
            out.probe('load-refused')
            if want is not None and (transient or s['k'] == 'fault' and not any(r['act'] == 'err' for r in hit)):
                raise Violation('refused', '%s failed: %r' % (what, err))
            d = differ(before, after)
            if d:
                raise Violation('half-loaded', '%s failed (%s: %s), but changed the model in place: %s'
                                % (what, type(err).__name__, str(err)[:80], ', '.join(d)))
            continue
        out.probe('load-done')
        if want is None:
            raise Violation('accepted', '%s has no complete table (columns %r, %s), but the load reported success'
                            % (what, cols, s.get('damage', s.get('value', ''))))
        for k, w in want.items():
            if k == 'ATM':
                continue
            if after[k] is None or not close(after[k], w):
                raise Violation('mixed', '%s succeeded, but %s is not what the file holds' % (what, k))
        for k in ('rho', 'rho2', 'rhobar'):
            m = (h > 1.0) & (h < pl.h_thres - 1.0)
            w = want['densityvectorized'] / (pl.rho0 if k == 'rhobar' else 1.0)
            g = after[k]
            fine = np.isclose(g[m], w[m], rtol=1e-6, atol=1e-9 * np.nanmax(np.abs(w[m])) if np.isfinite(w[m]).any() else 0, equal_nan=True)
            if s['thin'] == 1 and s['k'] != 'values' and not fine.all():
                raise Violation('mixed', '%s succeeded, but %s is not what the file holds' % (what, k))
    out['nontrivial'] = out['probes'].get('load-refused', 0) > 0 and out['probes'].get('load-done', 0) > 0
    out['key'] = out['log']


def counted(fn, at, cls):
    """Runs fn; counts Python calls into NumPy and SciPy, and raises cls at the at-th."""
    n = [0]

    def prof(frame, event, arg):
        if event != 'call':
            return
        f = frame.f_code.co_filename
        if 'numpy' in f or 'scipy' in f:
            if at is not None and n[0] == at:
                n[0] += 1
                raise cls('injected')
            n[0] += 1
    sys.setprofile(prof)
    try:
        fn()
    finally:
        sys.setprofile(None)
    return n[0]
