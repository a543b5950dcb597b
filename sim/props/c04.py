"""C04: a campaign stopped at any point keeps everything it had finished."""
import copy
import os

from .. import campaign as C, shim, world
from ..core import HarnessError, Violation

QUICK, THOROUGH = 40, 2000
RULE = ('a run is one campaign stopped at several points (crash before or after a file operation, torn write, I/O '
        'error, interrupt during a flight); distinct = different campaign and stop points')
REAL, STUB = C.REAL, C.STUB
ASSUMPTIONS = ['a stop is the death of the process, an exception or a failing call; the page cache survives '
               '(power loss is not simulated)']
STOPS = ['crash_before', 'crash_after', 'torn', 'err', 'interrupt']


def generate(rng, i, tier):
    d = C.describe(rng, C.ORDER[i % 5], rng.choice([2, 3, 5, 12]), skim=True, nfiles=rng.choice([1, 2]))
    if i % 10 < 8:
        C.make_skim(rng, d)
    else:
        d['N'] = 3
    stops = []
    for _ in range(14 if i % 10 < 8 else 3):
        a = rng.choice(STOPS)
        stops.append({'act': a, 'frac': round(rng.random(), 5), 'arg': rng.randrange(1 << 16) if a == 'torn' else
                      rng.choice(['ENOSPC', 'EIO', 'EDQUOT']) if a == 'err' else 0})
    return {'d': d, 'stops': stops}


def shrink(case):
    if len(case['stops']) > 1:
        for st in case['stops']:
            c = copy.deepcopy(case)
            c['stops'] = [st]
            yield c
    else:
        yield from C.shrink(case)


def campaign(d, data, folder, N, plan=None, log=None, at=None):
    """One campaign in a child; returns [result of child, density evaluations]."""
    def job():
        cls = C.planet_class()
        v = C.build(d, cls)
        C.setup(v, d, data)
        C.seed(d)
        if at is not None:
            cls.sim_at, cls.sim_exc = at, world.SimInterrupt('stop')
        if log is not None:
            shim.arm(log, os.path.dirname(folder) + os.sep, plan or [])
        C.run(v, d, folder, N)
        return cls.sim_count
    return C.child(job)


def run(case, out):
    d = case['d']
    N = d['N']
    base = world.scratch()
    data = os.path.join(base, 'data')
    C.write_files(d, data)
    log = shim.Log(20000)
    evals = [0]
    for j in range(1, N + 1):
        if j < N and not any(st['act'] == 'interrupt' for st in case['stops']):
            evals.append(None)
            continue
        log.reset()
        res = campaign(d, data, os.path.join(base, 'w%d' % j, 'res'), j, [], log)
        if res[0] == 'raised' and res[3]:
            raise Violation('raised', 'the campaign failed: ' + res[4])
        if res[0] != 'ok':
            raise HarnessError('reference campaign: %r' % (res,))
        evals.append(res[1])
    ops = log.n
    ref = C.tree(os.path.join(base, 'w%d' % N, 'res'))
    arrays = {n: C.numbers(os.path.join(base, 'w%d' % N, 'res', n + '.txt')) for n in C.SUMMARY}
    if any(x is None or len(x) != N for x in arrays.values()):
        raise Violation('summary-missing', 'an unstopped campaign left no complete summaries')
    out.event('ref', ops, C.tree_hash({k: x for k, x in ref.items() if 'atmfile' not in k}))
    out.probe('variant-' + d['variant'])

    for n, st in enumerate(case['stops']):
        folder = os.path.join(base, 's%d' % n, 'res')
        log.reset()
        done = None
        if st['act'] == 'interrupt':
            at = 1 + int(st['frac'] * evals[N])
            res = campaign(d, data, folder, N, [], log, at=at)
            done = max(j for j in range(N + 1) if evals[j] < at)
        else:
            k = int(st['frac'] * ops)
            res = campaign(d, data, folder, N, [{'at': k, 'act': st['act'], 'arg': st['arg'],
                                                 'ops': shim.MUTATING}], log)
        recs = log.records()
        hit = [r for r in recs if r['act'] not in ('none',)]
        if st['act'] == 'interrupt' and res[0] == 'ok':
            raise Violation('stop-swallowed', 'the campaign went on although it was interrupted in run %d' % (done + 1))
        if not hit and st['act'] != 'interrupt':
            out.probe('stop-after-the-end')
            continue
        if res[0] == 'died' and res[1] != 137:
            raise HarnessError('child died: %r' % (res,))
        out.fault(st['act'])
        out.event(n, st['act'], res[0], len(recs), [(r['op'], os.path.basename(r['path'])) for r in hit])
        check(d, folder, ref, arrays, done, res, '%s at %s' % (st['act'], '%s of %s' % (
            hit[0]['op'], os.path.relpath(hit[0]['path'], folder)) if hit else 'density evaluation'), out)
    out['nontrivial'] = True
    out['key'] = out['log']


def check(d, folder, ref, arrays, done, res, where, out):
    N = d['N']
    got = C.tree(folder) if os.path.isdir(folder) else {}
    dirs = sorted(int(k[1:]) for k in got if k.startswith('#') and got[k] == 'dir' and k[1:].isdigit())
    if dirs != list(range(1, len(dirs) + 1)):
        raise Violation('runs-missing', 'stopped (%s): run folders %r' % (where, dirs))
    m = len(dirs)
    if done is None:
        done = max(0, m - 1)
        if res[0] == 'ok':
            done = N
    out.probe('finished-runs-kept', done)
    for i in range(1, done + 1):
        for k in ref:
            if k.startswith('#%d/' % i) and got.get(k) != ref[k]:
                raise Violation('run-lost', 'stopped (%s) after %d finished runs: %s is %s' % (
                    where, done, k, 'missing' if k not in got else 'damaged: %r instead of %r' % (got[k][:60], ref[k][:60])))
    for name in C.SUMMARY:
        f = name + '.txt'
        if f not in got:
            if done:
                raise Violation('summary-lost', 'stopped (%s) after %d finished runs: %s is missing' % (where, done, f))
            continue
        x = C.numbers(os.path.join(folder, f))
        want = arrays[name]
        if x is None or (len(x) != N and not (done <= len(x) <= N)):
            raise Violation('summary-damaged', 'stopped (%s) after %d finished runs: %s is damaged: %r'
                            % (where, done, f, got[f][-80:]))
        if repr(x[:done]) != repr(want[:done]):
            raise Violation('summary-lost', 'stopped (%s): %s holds %r, the %d finished runs gave %r'
                            % (where, f, x[:done], done, want[:done]))
        rest = x[done:]
        if rest and rest[0] != want[done] and rest[0] == rest[0] and rest[0] != 0.0 or \
                any(y == y and y != 0.0 for y in rest[1:]):
            raise Violation('summary-invented', 'stopped (%s) after %d finished runs: %s holds %r for runs never flown'
                            % (where, done, f, rest))
