"""
Monte Carlo campaigns in the simulated world.

A campaign is described by JSON: vehicle and entry scenario, synthetic
atmosphere files, dispersions, number of runs, the two seeds.  The campaign
code, its file output and its atmosphere loading are the real code; files live
in a scratch directory and every I/O call passes the shim.
"""
import copy
import hashlib
import json
import os
import random
import select
import signal
import sys
import traceback

import numpy as np

from . import world
from .core import HarnessError, Violation

VARIANTS = {
    'L1': ('setupMonteCarloSimulation', 'runMonteCarlo', 'lift', 1),
    'L2': ('setupMonteCarloSimulation', 'runMonteCarlo2', 'lift', 2),
    'D1': ('setupMonteCarloSimulationD', 'runMonteCarloD', 'drag', 1),
    'D2': ('setupMonteCarloSimulationD', 'runMonteCarloD2', 'drag', 2),
    'DE': ('setupMonteCarloSimulationD_Earth', 'runMonteCarloD_Earth', 'drag', 1),
}
ORDER = ['L1', 'D1', 'L2', 'D2', 'DE']
REAL = ['AMAT.vehicle campaigns, guidance, propagation', 'AMAT.planet atmosphere loading',
        'numpy file output and input', 'random and numpy.random generators']
STUB = ['atmosphere data files: synthetic, seeded', 'file system calls: passed through the fault shim']
PER_RUN = ['atmfile', 'profile', 'efpa', 'atmSigma', 'LD', 'terminal_apoapsis', 'apoapsis_error',
           'terminal_periapsis', 'periapsis_raise_DV', 'apoapsis_raise_DV']
SUMMARY = ['terminal_apoapsis_arr', 'terminal_periapsis_arr', 'periapsis_raise_DV_arr',
           'apoapsis_raise_DV_arr', 'acc_net_g_max_arr', 'q_stag_max_arr', 'heatload_max_arr']


# ------------------------------------------------------------- description
def describe(rng, variant, N, skim=False, nfiles=None):
    kind = VARIANTS[variant][2]
    if variant == 'DE':
        pid = 'EARTH'
    elif kind == 'lift':
        pid = rng.choice(['NEPTUNE', 'URANUS', 'TITAN'] if not skim else ['NEPTUNE', 'TITAN'])
    else:
        pid = rng.choice(['VENUS', 'MARS', 'EARTH'])
    s = world.scenario(rng, kinds=(kind,), planets=[pid], calm=True)
    s['solver'] = VARIANTS[variant][3]
    # coarse guidance: a campaign is about bookkeeping, not about guidance quality
    if kind == 'lift':
        s['ts'], s['dt'] = rng.choice([(30.0, 10.0), (20.0, 10.0)])
        s['glide'][4] = 21
        if pid == 'TITAN':
            s['tmax'] = 1500.0
    else:
        s['ts'], s['ts_exit'], s['dt'] = rng.choice([(6.0, 15.0, 3.0), (8.0, 20.0, 4.0)])
        s['entry'][2] = 21
    lib = world.LIFT if kind == 'lift' else world.DRAG
    if kind == 'lift' and rng.random() < 0.15:             # drag coefficient by Mach number
        s['cdm'] = [round(rng.uniform(-0.4, 0.4), 3), round(rng.uniform(2.0, 30.0), 2), round(rng.uniform(1.0, 10.0), 2)]
    if not skim and rng.random() < 0.2:                    # the first phase ends early, most of the flight is the second
        s['glide' if kind == 'lift' else 'entry'][2 if kind == 'lift' else 0] = round(s['v0'] * rng.uniform(0.95, 1.02), 4)
    if rng.random() < 0.25:                                # a target periapsis below the one reached
        s['target'][0] = round(rng.uniform(5.0, 60.0), 3)
    cols = list(range(5))
    extra = rng.choice([0, 0, 2])
    cols = list(range(5 + extra))
    if rng.random() < 0.5:
        rng.shuffle(cols)
    npos = rng.choice([40, 61, 90])
    nmonte = rng.choice([1, 2, 3, 5, 8])
    d = dict(variant=variant, s=s, N=N, npos=npos, nmonte=nmonte,
             more=rng.choice([0, 0, 1]),                     # profiles in the file beyond NMONTE
             cols=cols, km=rng.random() < 0.5, down=rng.random() < 0.3,
             files=[rng.randrange(1 << 30) for _ in range(nfiles or rng.choice([1, 2, 3, 4]))],
             efpa_sd=round(lib[pid]['efpa_sd'] * rng.choice([0.3, 1.0]), 5),
             ld_sd=round(rng.choice([0.0, 0.01, 0.03]), 4), beta_sd=round(rng.choice([0.0, 0.5, 2.0]), 3),
             sigma=rng.choice([1, 1, 0.5, 2.0]), spread=rng.choice([0.03, 0.08]),
             seeds=[rng.randrange(1 << 31), rng.randrange(1 << 31)])
    d['names'] = ['F%d.txt' % k for k in range(len(d['files']))]
    if len(d['files']) > 1 and rng.random() < 0.3:
        d['names'] = ['d%d/same.txt' % k for k in range(len(d['files']))]
    return d


def write_files(d, folder, salt=None):
    """Synthetic GRAM-like Monte Carlo files (salt: written in another order, with other file times)."""
    todo = list(zip(d['names'], d['files']))
    r = random.Random(salt)
    if salt is not None:
        r.shuffle(todo)
    for name, seed in todo:
        write_file(d, os.path.join(folder, name), seed)
        if salt is not None:
            t = r.randrange(1 << 31)
            os.utime(os.path.join(folder, name), (t, t))


def write_file(d, path, seed):
    s = d['s']
    r = np.random.RandomState(seed & 0x7fffffff)
    h, lr = world.base_table(s['planet'])
    top = {'NEPTUNE': 1000e3, 'URANUS': 1000e3, 'TITAN': 1000e3, 'VENUS': 150e3, 'MARS': 150e3,
           'EARTH': 125e3}[s['planet']]
    hs = np.linspace(0.0, top, d['npos'])
    if d['down']:
        hs = hs[::-1]
    base = np.exp(np.interp(hs, h, lr))
    rows = []
    for k in range(d['nmonte'] + d['more']):
        avg = base * np.exp(0.05 * r.standard_normal())
        lo = avg * (1 - d['spread'] * (1 + 0.2 * r.random_sample()))
        hi = avg * (1 + d['spread'] * (1 + 0.2 * r.random_sample()))
        ph, wl = r.uniform(0, 6.28), r.uniform(0.05, 0.3) * top
        tot = avg * (1 + 0.05 * np.sin(2 * np.pi * hs / wl + ph))
        sd = (hi - avg) / avg * 100.0
        hcol = hs / 1e3 if d['km'] else hs
        data = [hcol, lo, avg, hi, tot] if d['variant'] != 'DE' else [hcol, avg, sd, tot, lo]
        data += [r.random_sample(len(hs)) for _ in range(len(d['cols']) - 5)]
        m = np.empty((len(hs), len(d['cols'])))
        for j, c in enumerate(d['cols']):
            m[:, c] = data[j]
        rows.append(m)
    a = np.concatenate(rows)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f:
        f.write('#  synthetic profiles\n')
        for row in a:
            f.write(' '.join('%.6E' % x for x in row) + '\n')


# ------------------------------------------------------------- driving AMAT
class SimPlanetMixin:
    """Density look-up with a counter, for interrupts during a campaign."""


def planet_class():
    from .amat import Planet

    class SimPlanet(Planet):
        sim_count = 0
        sim_at = None
        sim_exc = None
        sim_hook = None

        def sim_tick(self):
            cls = type(self)
            cls.sim_count += 1
            if cls.sim_at is not None and cls.sim_count >= cls.sim_at:
                cls.sim_at = None
                raise cls.sim_exc
            if cls.sim_hook is not None:
                cls.sim_hook()

        def density(self, h):
            self.sim_tick()
            return super().density(h)

        def densityvectorized(self, h):
            self.sim_tick()
            return super().densityvectorized(h)

        def rho(self, *a):
            self.sim_tick()
            return super().rho(*a)

        def rhovectorized(self, r):
            self.sim_tick()
            return super().rhovectorized(r)

        def __deepcopy__(self, memo):
            import copy as cp
            new = type(self).__new__(type(self))
            memo[id(self)] = new
            for k, v in self.__dict__.items():
                new.__dict__[k] = cp.deepcopy(v, memo)
            return new
    return SimPlanet


def build(d, cls=None):
    """Fresh planet and vehicle for a campaign."""
    s = d['s']
    from .amat import Planet
    p = (cls or Planet)(s['planet'])
    t = world.PLANETS[s['planet']]
    p.loadAtmosphereModel(os.path.join(world.REPO, 'atmdata', t['file']), *t['cols'], heightInKmFlag=t['km'])
    for k, x in t.get('set', {}).items():
        setattr(p, k, x)
    return world.make_vehicle(s, p)


def setup(v, d, folder=None, files=None):
    """folder None: the files are named relative to the working directory.  Returns the list of names handed over."""
    s = d['s']
    files = files or [os.path.join(folder, n) if folder else n for n in d['names']]
    # where the names lie in memory is arbitrary too
    for k in d.get('layout', []):
        if k < len(files):
            files[k] = ''.join(list(files[k]))
    c = d['cols']
    f = getattr(v, VARIANTS[d['variant']][0])
    if VARIANTS[d['variant']][2] == 'lift':
        f(d['npos'], d['nmonte'], files, c[0], c[1], c[2], c[3], c[4], d['km'], s['efpa'], d['efpa_sd'],
          s['vehicle'][2], d['ld_sd'], s['ts'], s['dt'], s['tmax'], atmSigmaFactor=d['sigma'])
    elif d['variant'] == 'DE':
        f(d['npos'], d['nmonte'], files, c[0], c[1], c[2], c[3], d['km'], s['efpa'], d['efpa_sd'],
          s['beta'][0], d['beta_sd'], s['ts'], s['ts_exit'], s['dt'], s['tmax'])
    else:
        f(d['npos'], d['nmonte'], files, c[0], c[1], c[2], c[3], c[4], d['km'], s['efpa'], d['efpa_sd'],
          s['beta'][0], d['beta_sd'], s['ts'], s['ts_exit'], s['dt'], s['tmax'])
    return files


def seed(d):
    import random as rd
    rd.seed(d['seeds'][0])
    np.random.seed(d['seeds'][1])


class Wild:
    """Seam at numpy.random.normal: draws are often far out (the campaign has to cope with, and record, whatever it draws)."""

    def __init__(self, on):
        self.on = on

    def __enter__(self):
        self.real = np.random.normal
        if self.on:
            real = self.real

            def normal(loc=0.0, scale=1.0, size=None):
                z = real(0.0, 1.0, size)
                return loc + scale * (z + 1.6 * np.sign(z) * (np.abs(z) > 0.6))
            np.random.normal = normal

    def __exit__(self, *a):
        np.random.normal = self.real


def run(v, d, folder, N=None):
    with Wild(d.get('wild')):
        getattr(v, VARIANTS[d['variant']][1])(d['N'] if N is None else N, folder)


# ------------------------------------------------------------- reading results
def numbers(path):
    """Own reader of the result files: a list of floats; None if damaged."""
    try:
        text = open(path).read()
    except OSError:
        return None
    try:
        return [float(x) for x in text.split()]
    except ValueError:
        return None


def read_run(d, folder, i):
    base = os.path.join(folder, '#%d' % i)
    out = {}
    for n in PER_RUN + (['beta1'] if VARIANTS[d['variant']][2] == 'drag' else []):
        p = os.path.join(base, n + '.txt')
        if n == 'atmfile':
            try:
                out[n] = open(p).read().rstrip('\n')
            except OSError:
                raise Violation('run-file-missing', 'run %d has no %s' % (i, n))
            continue
        x = numbers(p)
        if x is None or len(x) != 1:
            raise Violation('run-file-missing', 'run %d: %s.txt is missing or not one number' % (i, n))
        out[n] = x[0]
    return out


def read_summary(folder, N):
    out = {}
    for n in SUMMARY:
        x = numbers(os.path.join(folder, n + '.txt'))
        if x is None or len(x) != N:
            raise Violation('summary-missing', '%s.txt is missing or does not hold %d numbers' % (n, N))
        out[n] = np.array(x)
    return out


def tree(folder):
    """path -> bytes (or 'dir'/'link') of everything below folder."""
    out = {}
    for base, dirs, files in os.walk(folder):
        for n in dirs + files:
            p = os.path.join(base, n)
            rel = os.path.relpath(p, folder)
            if os.path.islink(p):
                out[rel] = 'link:' + os.readlink(p)
            elif os.path.isdir(p):
                out[rel] = 'dir'
            else:
                with open(p, 'rb') as f:
                    out[rel] = f.read()
    return out


def tree_diff(a, b):
    for k in sorted(set(a) | set(b)):
        if k not in a:
            return '%s appeared' % k
        if k not in b:
            return '%s is missing' % k
        if a[k] != b[k]:
            return '%s differs: %r instead of %r' % (k, b[k][:80], a[k][:80])
    return None


def tree_hash(t):
    h = hashlib.sha256()
    for k in sorted(t):
        h.update(k.encode())
        x = t[k] if isinstance(t[k], bytes) else t[k].encode()
        h.update(x.replace(os.environ.get('SIM_SCRATCH', '/nowhere').encode(), b'~'))
    return h.hexdigest()


# ------------------------------------------------------------- oracle
def profile(d, path, index, sigma):
    """(h, density) of one profile, from the file, by the harness's own reader."""
    rows = []
    for line in open(path):
        line = line.split('#')[0].split()
        if line:
            rows.append([float(x) for x in line])
    a = np.array(rows)[(index - 1) * d['npos']: index * d['npos']]
    c = d['cols']
    h = a[:, c[0]] * (1e3 if d['km'] else 1.0)
    if d['variant'] == 'DE':
        avg, sd, tot = a[:, c[1]], a[:, c[2]], a[:, c[3]]
        lo, hi = avg - avg * sd * 0.01, avg + avg * sd * 0.01
    else:
        lo, avg, hi, tot = (a[:, c[k]] for k in (1, 2, 3, 4))
    side = hi - avg if sigma >= 0 else avg - lo
    rho = avg + side * sigma + (tot - avg)
    o = np.argsort(h, kind='stable')
    return h[o], rho[o]


class Linear:
    """Piecewise linear density, zero outside the data."""

    def __init__(self, h, rho):
        self.h, self.rho = h, rho

    def __call__(self, x):
        return np.interp(np.asarray(x, dtype=float), self.h, self.rho, left=0.0, right=0.0)

    def __deepcopy__(self, memo):
        return self


def refly(d, run, folder=None):
    """Fly the recorded inputs of one run on fresh objects; returns the vehicle."""
    s = copy.deepcopy(d['s'])
    s['efpa'] = run['efpa']
    s['vehicle'][2] = run['LD']
    if s['kind'] == 'drag':
        s['beta'][0] = run['beta1']
    p = run['atmfile']
    if folder and not os.path.isabs(p):
        p = os.path.join(folder, p)
    h, rho = profile(d, p, int(run['profile']), run['atmSigma'])
    pl = world.make_planet(s['planet'], None)
    pl.density_int = Linear(h, rho)
    v = world.make_vehicle(s, pl)
    world.fly(v, s)
    return v


def peaks(d, v):
    """Peak load, heat rate and heat load of a flown run, in campaign units."""
    q, t = np.asarray(v.q_stag_total_full), np.asarray(v.t_min_full) * 60.0
    if d['variant'] in ('L2', 'D2'):
        heat = float(np.sum(0.5 * (q[1:] + q[:-1]) * np.diff(t))) / 1e3
    else:
        heat = float(np.max(v.heatload_full))
    return float(np.max(v.acc_net_g_full)), float(np.max(q)), heat


# ------------------------------------------------------------- processes
def child(fn, cwd=None, timeout=150):
    """Run fn() in a forked process; returns ('ok', value) | ('raised', type, text) | ('died', status)."""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            if cwd:
                os.chdir(cwd)
            try:
                res = ['ok', fn()]
            except HarnessError:
                res = ['harness', traceback.format_exc()]
            except BaseException as e:      # noqa
                from .core import through_repo
                res = ['raised', type(e).__name__, str(e)[:300], through_repo(e.__traceback__),
                       traceback.format_exc()[-1200:]]
            from . import shim
            if os.environ.get('SIM_SHIM'):
                shim.disarm()
            data = json.dumps(res).encode()
            while data:
                n = os.write(w, data)
                data = data[n:]
        finally:
            os._exit(0)
    os.close(w)
    buf = b''
    while True:
        ready, _, _ = select.select([r], [], [], timeout)
        if not ready:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)
            return ['died', 'timeout']
        chunk = os.read(r, 1 << 16)
        if not chunk:
            break
        buf += chunk
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if not buf:
        return ['died', os.WEXITSTATUS(st) if os.WIFEXITED(st) else -os.WTERMSIG(st)]
    res = json.loads(buf.decode())
    if res[0] == 'harness':
        raise HarnessError(res[1])
    return res


def shrink(case):
    """Candidates common to all campaign cases (key 'd')."""
    d = case['d']
    for name, small in (('N', max(1, d['N'] - 1)), ('nmonte', 1), ('more', 0), ('ld_sd', 0.0), ('beta_sd', 0.0),
                        ('sigma', 1), ('down', False), ('wild', False)):
        if d.get(name, small) != small:
            c = copy.deepcopy(case)
            c['d'][name] = small
            yield c
    if len(d['files']) > 1:
        c = copy.deepcopy(case)
        c['d']['files'] = d['files'][:1]
        c['d']['names'] = d['names'][:1]
        yield c
    if d['cols'] != list(range(5)):
        c = copy.deepcopy(case)
        c['d']['cols'] = list(range(5))
        yield c


def make_skim(rng, d):
    """Entry scenario on its way out of the atmosphere: a run takes milliseconds."""
    s = d['s']
    top = world.make_planet(s['planet'], load=False).h_skip / 1e3
    s['h0'] = round(top * rng.uniform(0.93, 0.97), 3)
    s['efpa'] = abs(s['efpa'])
    if s['kind'] == 'lift':
        s['ts'], s['dt'] = 60.0, 20.0
    return d
