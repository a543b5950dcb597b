"""C05: input/output trouble is reported or harmless, never a wrong result."""
import copy
import glob
import os

import numpy as np

from .. import campaign as C, shim, world
from ..core import HarnessError, Violation
from .c04 import campaign

QUICK, THOROUGH = 120, 4000
RULE = ('a run is one campaign (or a few data loads) executed under several I/O fault sequences: failing calls, short '
        'and interrupted calls, damaged data files; distinct = different workload and fault sequence')
REAL, STUB = C.REAL + ['AMAT.launcher'], C.STUB
ASSUMPTIONS = ['damage to a data file leaves lines which do not parse or are missing: a file whose numbers were '
               'silently changed cannot be told from a good one']
ERRNO = ['EIO', 'ENOSPC', 'EACCES', 'EMFILE', 'EROFS', 'EDQUOT', 'ENOENT']
DAMAGE = ['lines', 'half-line', 'short-line', 'short-line', 'garbage', 'stars', 'empty', 'missing', 'directory', 'unreadable-tail']


def faults(rng):
    k = rng.choice(['err', 'err', 'err', 'short', 'eintr', 'many'])
    one = lambda act, arg: {'act': act, 'frac': round(rng.random(), 5), 'arg': arg}
    if k == 'err':
        return [one('err', rng.choice(ERRNO))]
    if k == 'short':
        return [one('short', rng.randrange(1 << 16)) for _ in range(rng.choice([1, 4, 12]))]
    if k == 'eintr':
        return [one('err', 'EINTR') for _ in range(rng.choice([1, 3, 8]))]
    return [one('short', rng.randrange(1 << 16)), one('err', 'EINTR'), one('err', rng.choice(ERRNO))]


def generate(rng, i, tier):
    if i % 6 == 5:
        return {'load': [load_case(rng) for _ in range(10)]}
    d = C.describe(rng, C.ORDER[(i - i // 6) % 5], rng.choice([1, 2, 4]), skim=True, nfiles=rng.choice([1, 2, 3]))
    C.make_skim(rng, d)
    seqs = []
    for _ in range(12):
        if rng.random() < 0.3:
            frac = rng.random()
            if rng.random() < 0.6:               # the lines for the air flown through are at one end of the file
                frac = rng.choice([0.12 * frac, 1.0 - 0.12 * frac])
            seqs.append({'damage': rng.choice(DAMAGE), 'file': rng.random(), 'frac': round(min(frac, 0.99999), 5)})
        else:
            seqs.append({'plan': faults(rng)})
    return {'d': d, 'seqs': seqs}


def load_case(rng):
    return {'what': rng.choice(['atmosphere', 'launcher']), 'planet': rng.choice(sorted(world.PLANETS)),
            'launcher': rng.random(), 'plan': faults(rng) if rng.random() < 0.6 else [],
            'damage': rng.choice(DAMAGE), 'frac': round(rng.random(), 5)}


def shrink(case):
    key = 'load' if 'load' in case else 'seqs'
    if len(case[key]) > 1:
        for x in case[key]:
            c = copy.deepcopy(case)
            c[key] = [x]
            yield c
        return
    x = case[key][0]
    for k in range(len(x.get('plan', []))):
        if len(x['plan']) > 1:
            c = copy.deepcopy(case)
            del c[key][0]['plan'][k]
            yield c
    if 'd' in case:
        yield from C.shrink(case)


def damage(path, kind, frac, keep=0):
    """Damages a data file; at least `keep` fractional lines survive."""
    if kind == 'missing':
        os.remove(path)
        return
    if kind == 'directory':
        os.remove(path)
        os.mkdir(path)
        return
    lines = open(path).read().split('\n')
    if lines and lines[-1] == '':
        lines.pop()
    k = int(frac * len(lines))
    if kind == 'empty':
        lines = []
    elif kind == 'lines':
        lines = lines[:k]
    elif kind == 'half-line':
        row = lines[k].replace(',', ' , ').split()
        lines = lines[:k] + [' '.join(row[:max(1, len(row) // 2)]).rstrip(', ')]
    elif kind == 'short-line':     # a line in the middle has lost its end
        row = lines[k].replace(',', ' , ').split()
        lines[k] = ' '.join(row[:max(1, len(row) // 2)]).rstrip(', ')
    elif kind == 'garbage':
        lines[k] = lines[k][:3] + '@@@@' + lines[k][3:]
    elif kind == 'stars':          # a field did not fit its column when the file was printed
        row = lines[k].split()
        row[int(frac * 997) % len(row)] = '******'
        lines[k] = ' '.join(row) if int(frac * 1e5) % 2 else '*' * 40
    elif kind == 'unreadable-tail':
        lines = lines[:k] + ['\x00\x00\x00']
    with open(path, 'w') as f:
        f.write('\n'.join(lines) + ('\n' if lines else ''))


def transparent(plan):
    return all(p['act'] == 'short' or p['arg'] == 'EINTR' for p in plan)


def run(case, out):
    if 'load' in case:
        for x in case['load']:
            load(x, out)
        out['nontrivial'] = True
        out['key'] = out['log']
        return
    d = case['d']
    base = world.scratch()
    pure = os.path.join(base, 'w', 'data')
    C.write_files(d, pure)
    log = shim.Log(20000)
    res = campaign(d, pure, os.path.join(base, 'w', 'res'), d['N'], [], log)
    if res[0] == 'raised' and res[3]:
        raise Violation('raised', 'the campaign failed: ' + res[4])
    if res[0] != 'ok':
        raise HarnessError('reference campaign: %r' % (res,))
    ops = [r['op'] for r in log.records()]
    strip = lambda t: {k: x for k, x in t.items() if not k.endswith('atmfile.txt')}
    ref = strip(C.tree(os.path.join(base, 'w', 'res')))
    out.event('ref', len(ops), C.tree_hash(ref))
    out.probe('variant-' + d['variant'])
    for n, seq in enumerate(case['seqs']):
        root = os.path.join(base, 's%d' % n)
        data, folder = os.path.join(root, 'data'), os.path.join(root, 'res')
        C.write_files(d, data)
        plan = []
        if 'damage' in seq:
            p = os.path.join(data, d['names'][int(seq['file'] * len(d['names']))])
            damage(p, seq['damage'], seq['frac'])
            what = 'data file %s (%.0f %%)' % (seq['damage'], 100 * seq['frac'])
            out.fault('data-' + seq['damage'])
        else:
            at = 0
            for f in seq['plan']:
                if f['act'] == 'short':
                    mask = ['write', 'read']
                else:
                    mask = [o for o in shim.OPS if o] if f['arg'] != 'EINTR' else ['openw', 'openr', 'write', 'read']
                count = sum(o in mask for o in ops)
                plan.append({'at': int(f['frac'] * count), 'ops': mask, 'act': f['act'], 'arg': f['arg']})
            what = ', '.join('%s %s' % (f['act'], f['arg']) for f in seq['plan'])
        log.reset()
        res = campaign(d, data, folder, d['N'], plan, log)
        hit = [r for r in log.records() if r['act'] != 'none']
        for r in hit:
            out.fault('%s-%s' % (r['act'], r['op']))
        out.event(n, res[0], len(hit))
        if hit:
            what += ' at ' + ', '.join('%s of %s' % (r['op'], os.path.relpath(r['path'], root)) for r in hit)
        if res[0] == 'died':
            raise Violation('died', 'campaign under %s: the process died: %r' % (what, res[1]))
        if res[0] == 'raised':
            out.probe('trouble-reported')
            if res[1] in ('KeyboardInterrupt', 'SystemExit', 'MemoryError'):
                raise Violation('wrong-report', 'campaign under %s: ended with %s' % (what, res[1]))
            if plan and transparent(seq['plan']):
                raise Violation('transient-fatal', 'campaign under %s failed: %s' % (what, res[4][-500:]))
            continue
        out.probe('trouble-harmless')
        diff = C.tree_diff(ref, strip(C.tree(folder)))
        if diff:
            raise Violation('silent-damage', 'the campaign reported success under %s, but %s' % (what, diff))
    out['nontrivial'] = True
    out['key'] = out['log']


def tables(x):
    h = np.linspace(0.0, x.h_skip, 200)
    return np.concatenate([np.asarray(f(h), dtype=float) for f in (x.density_int, x.temp_int, x.pressure_int, x.sonic_int)])


def load(x, out):
    """A single data file read under faults: refused, or read exactly."""
    base = world.scratch('load%d' % out['probes'].get('loads', 0))
    if x['what'] == 'launcher':
        files = sorted(glob.glob(os.path.join(world.REPO, 'launcher-data', '*.csv')))
        src = files[int(x['launcher'] * len(files))]
    else:
        src = os.path.join(world.REPO, 'atmdata', world.PLANETS[x['planet']]['file'])
    text = open(src).read()
    path = os.path.join(base, 'd', 'file')
    os.makedirs(os.path.dirname(path))
    with open(path, 'w') as f:
        f.write(text)

    def use(p, log=None, plan=()):
        def job():
            from AMAT.launcher import Launcher
            from ..amat import Planet
            if x['what'] != 'launcher':
                pl = Planet(x['planet'])
            if log is not None:
                shim.arm(log, base + os.sep, plan)
            if x['what'] == 'launcher':
                L = Launcher('sim', p)
                c3 = np.linspace(-10, 120, 300)
                return [float(v) for v in np.asarray(L.launchMass(c3))]
            t = world.PLANETS[x['planet']]
            pl.loadAtmosphereModel(p, *t['cols'], heightInKmFlag=t['km'])
            return [float(v) for v in tables(pl)]
        return C.child(job)

    log = shim.Log(4000)
    ref = use(path, log, [])
    if ref[0] != 'ok':
        raise Violation('load-failed', '%s cannot be read: %r' % (os.path.basename(src), ref[:3]))
    ops = [r['op'] for r in log.records()]
    plan = []
    what = x['damage']
    if x['plan']:
        for f in x['plan']:
            mask = ['read'] if f['act'] == 'short' else ['openr', 'read'] if f['arg'] == 'EINTR' else ['openr', 'read']
            n = sum(o in mask for o in ops)
            plan.append({'at': int(f['frac'] * n), 'ops': mask, 'act': f['act'], 'arg': f['arg']})
        what = ', '.join('%s %s' % (f['act'], f['arg']) for f in x['plan'])
    else:
        if x['damage'] in ('lines', 'empty'):
            what = 'garbage'      # a shorter table is a valid table
        damage(path, what, x['frac'])
    log.reset()
    res = use(path, log, plan)
    for r in log.records():
        if r['act'] != 'none':
            out.fault('%s-%s' % (r['act'], r['op']))
    if not x['plan']:
        out.fault('data-' + what)
    out.probe('loads')
    out.event(x['what'], res[0])
    if res[0] == 'raised':
        if x['plan'] and transparent(x['plan']):
            raise Violation('transient-fatal', 'reading %s under %s failed: %s' % (os.path.basename(src), what, res[4][-400:]))
        out.probe('trouble-reported')
    elif res[0] == 'ok':
        same = len(res[1]) == len(ref[1]) and np.array_equal(res[1], ref[1], equal_nan=True)
        if not same:
            raise Violation('silent-damage', 'reading %s under %s succeeded with different values' % (os.path.basename(src), what))
        out.probe('trouble-harmless')
    else:
        raise Violation('died', 'reading %s under %s: %r' % (os.path.basename(src), what, res))
