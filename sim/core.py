"""
Deterministic-simulation engine for AMAT.

One integer (VERIF_SEED) decides everything.  Case i of property P is a pure
function of (VERIF_SEED, P, i): a JSON document which names the scenario, the
workload, the schedule and every fault.  `run(case)` executes it on the real
code imported from /repo, in a freshly forked process, and returns an outcome
(violations, fault counts, probes, digest of the event log).  Nothing in this
file draws from a case's PRNG, and no wall-clock reading ever reaches a case.
"""
import hashlib
import importlib
import json
import os
import random
import re
import resource
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
EVIDENCE = os.path.join(VERIF, 'evidence')
REPLAYS = os.path.join(EVIDENCE, 'replays')
KNOWN = os.path.join(VERIF, 'known_findings.txt')

CASE_CPU_LIMIT = 240          # seconds of CPU for one simulated run
QUICK_WALL_CAP = 420          # never start new cases after this
WORKERS = int(os.environ.get('VERIF_WORKERS', str(min(8, os.cpu_count() or 1))))


class HarnessError(Exception):
    """The machinery itself failed: never a verdict about AMAT."""


class Violation(Exception):
    """Raised inside a case when the property is broken."""

    def __init__(self, cls, msg=''):
        super().__init__('%s: %s' % (cls, msg))
        self.cls = cls
        self.msg = msg


class Outcome(dict):
    def __init__(self):
        super().__init__(violations=[], nontrivial=False, key='', faults={},
                         probes={}, sim_s=0.0, log=hashlib.sha256().hexdigest(),
                         note='')
        self._h = hashlib.sha256()

    def fail(self, cls, msg=''):
        self['violations'].append({'cls': cls, 'msg': str(msg)[:2000]})

    def fault(self, kind, n=1):
        if n:
            self['faults'][kind] = self['faults'].get(kind, 0) + int(n)

    def probe(self, name, n=1):
        if n:
            self['probes'][name] = self['probes'].get(name, 0) + int(n)

    def event(self, *parts):
        """Append to the (hashed) event log of this run."""
        self._h.update(repr(parts).encode())
        self['log'] = self._h.hexdigest()

    def array(self, name, a):
        import numpy as np
        a = np.ascontiguousarray(np.asarray(a, dtype=float))
        self._h.update(name.encode())
        self._h.update(a.tobytes())
        self['log'] = self._h.hexdigest()


# --------------------------------------------------------------------------
# one case, executed in a forked child
# --------------------------------------------------------------------------
def through_repo(tb):
    """True if the exception was raised while AMAT code was on the stack."""
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if f.startswith(os.path.join(REPO, 'AMAT') + os.sep):
            return True
        tb = tb.tb_next
    return False


def cpu_limit(mod):
    return getattr(mod, 'CPU_LIMIT', CASE_CPU_LIMIT)


def execute(mod, case):
    """Run one case in this process; returns an Outcome."""
    out = Outcome()
    try:
        mod.run(case, out)
    except Violation as v:
        out.fail(v.cls, v.msg)
    except HarnessError:
        out['harness_error'] = traceback.format_exc()
    except BaseException as e:           # noqa
        if through_repo(e.__traceback__):
            out.fail('raised-' + type(e).__name__,
                     'AMAT raised where the property promises a result:\n'
                     + traceback.format_exc()[-1500:])
        else:
            out['harness_error'] = traceback.format_exc()
    return out


def _child(mod, case, wfd, cpu, scratch_root):
    try:
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        os.environ['SIM_SCRATCH'] = scratch_root
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        if not os.environ.get('SIM_DEBUG'):
            os.dup2(devnull, 2)
        sys.stdout = open(1, 'w', closefd=False)
        out = execute(mod, case)
        data = json.dumps(dict(out)).encode()
    except BaseException:                # noqa
        data = json.dumps({'harness_error': traceback.format_exc()}).encode()
    try:
        view = memoryview(data)
        while len(view):
            n = os.write(wfd, view)
            view = view[n:]
    finally:
        os._exit(0)


class Pool:
    """Fork per case, at most `workers` at a time; results in case order."""

    def __init__(self, mod, workers=None):
        self.mod = mod
        self.workers = workers or WORKERS
        self.cpu = cpu_limit(mod)

    def map(self, cases, deadline=None, on_result=None):
        """Yields nothing; returns {index: outcome} for the cases run."""
        results = {}
        todo = list(enumerate(cases))[::-1]
        live = {}                      # rfd -> [pid, index, buffer, t0, scratch]
        stop = False
        while live or (todo and not stop):
            while todo and not stop and len(live) < self.workers:
                if deadline and time.monotonic() > deadline:
                    stop = True
                    break
                i, case = todo.pop()
                r, w = os.pipe()
                scratch = tempfile.mkdtemp(prefix='amatsim-')
                sys.stdout.flush()
                sys.stderr.flush()
                pid = os.fork()
                if pid == 0:
                    os.close(r)
                    os.setpgid(0, 0)
                    _child(self.mod, case, w, self.cpu, scratch)
                os.close(w)
                live[r] = [pid, i, b'', time.monotonic(), scratch]
            if not live:
                break
            ready, _, _ = select.select(list(live), [], [], 1.0)
            now = time.monotonic()
            for r in ready:
                chunk = os.read(r, 1 << 20)
                if chunk:
                    live[r][2] += chunk
                    continue
                pid, i, buf, t0, scratch = live.pop(r)
                os.close(r)
                _, status = os.waitpid(pid, 0)
                try:
                    os.killpg(pid, signal.SIGKILL)
                except (ProcessLookupError, PermissionError):
                    pass
                shutil.rmtree(scratch, ignore_errors=True)
                try:
                    res = json.loads(buf.decode())
                except ValueError:
                    if os.WIFSIGNALED(status) and os.WTERMSIG(status) in (
                            signal.SIGXCPU, signal.SIGKILL):
                        res = {'timeout': True}
                    else:
                        res = {'harness_error': 'child died, status %r' % status}
                results[i] = res
                if on_result and on_result(i, res):
                    stop = True
            for r, (pid, i, buf, t0, scratch) in list(live.items()):
                if now - t0 > 3 * self.cpu:
                    try:
                        os.killpg(pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
        return results


def normalise(mod, res):
    """Turn a CPU-limit kill into a verdict where the property bounds progress."""
    if res.get('timeout'):
        o = Outcome()
        if getattr(mod, 'TIMEOUT_IS_VIOLATION', False):
            o.fail('no-termination', 'no end within %d s of CPU time' % cpu_limit(mod))
        else:
            o['harness_error'] = 'run exceeded %d s of CPU time' % cpu_limit(mod)
        return o
    if 'violations' not in res:
        o = Outcome()
        o.update(res)
        return o
    return res


# --------------------------------------------------------------------------
# shrinking and replay
# --------------------------------------------------------------------------
def minimise(mod, case, cls, budget_s=60, tries=80):
    shrink = getattr(mod, 'shrink', None)
    log = {'tried': 0, 'accepted': 0}
    if shrink is None:
        return case, log
    end = time.monotonic() + budget_s
    pool = Pool(mod)
    progress = True
    while progress and time.monotonic() < end and log['tried'] < tries:
        progress = False
        cands = []
        seen = {json.dumps(case, sort_keys=True)}
        for c in shrink(json.loads(json.dumps(case))):
            k = json.dumps(c, sort_keys=True)
            if k not in seen:
                seen.add(k)
                cands.append(c)
            if len(cands) >= 24:
                break
        if not cands:
            break
        res = pool.map(cands, deadline=end)
        log['tried'] += len(res)
        for i in sorted(res):
            r = normalise(mod, res[i])
            if any(v['cls'] == cls for v in r.get('violations', ())):
                case = cands[i]
                log['accepted'] += 1
                progress = True
                break
    return case, log


def write_replay(prop, seed, index, case, original, viol, shrink_log, log):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, '%s-%d-%d.json' % (prop, seed, index))
    with open(path, 'w') as f:
        json.dump({'property': prop, 'seed': seed, 'index': index,
                   'violation': viol, 'event_log': log, 'minimised': case,
                   'shrink': shrink_log, 'original': original}, f, indent=1)
    return path


# --------------------------------------------------------------------------
# known findings
# --------------------------------------------------------------------------
def known_findings(prop):
    """Lines 'finding: property=<id> match=<regex> :: <what fails>'."""
    found = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r'finding: property=(\S+) match=(.*?) :: (.*)$', line.strip())
            if m and m.group(1) == prop:
                found.append((re.compile(m.group(2)), m.group(3)))
    return found


# --------------------------------------------------------------------------
# the check
# --------------------------------------------------------------------------
def case_rng(seed, prop, index):
    return random.Random('amat-sim/%d/%s/%d' % (seed, prop, index))


def load(prop):
    return importlib.import_module('sim.props.' + prop.lower())


def check(prop, tier, seed, count=None, verbose=False):
    t0 = time.monotonic()
    mod = load(prop)
    if hasattr(mod, 'prepare'):
        mod.prepare()
    n = count or (mod.QUICK if tier == 'quick' else mod.THOROUGH)
    cap = QUICK_WALL_CAP if tier == 'quick' else int(os.environ.get('VERIF_THOROUGH_S', '780'))
    cases = [mod.generate(case_rng(seed, prop, i), i, tier) for i in range(n)]
    if hasattr(mod, 'budget'):
        cases = mod.budget(cases)
    known = known_findings(prop)

    stats = {'evaluations': 0, 'faults': {}, 'probes': {}, 'sim_s': 0.0,
             'keys': set(), 'logs': set()}
    bad = []
    herr = []
    samples = []

    def absorb(i, raw):
        r = normalise(mod, raw)
        if r.get('harness_error'):
            herr.append((i, r['harness_error']))
            return len(herr) > 3
        stats['evaluations'] += 1
        for k, v in r.get('faults', {}).items():
            stats['faults'][k] = stats['faults'].get(k, 0) + v
        for k, v in r.get('probes', {}).items():
            stats['probes'][k] = stats['probes'].get(k, 0) + v
        stats['sim_s'] += r.get('sim_s', 0.0)
        if r.get('nontrivial'):
            stats['keys'].add(r.get('key') or r['log'])
        stats['logs'].add(r['log'])
        if r['violations']:
            bad.append((i, r))
        return sum(1 for _, q in bad if not suppressed(q)) >= 3

    def suppressed(r):
        return all(any(rx.search(v['cls'] + ' ' + v['msg']) for rx, _ in known)
                   for v in r['violations'])

    deadline = t0 + cap
    results = Pool(mod).map(cases, deadline=deadline, on_result=absorb)

    for i in sorted(results)[:3]:
        r = normalise(mod, results[i])
        samples.append({'index': i, 'case': cases[i], 'event_log': r.get('log'),
                        'faults': r.get('faults'), 'probes': r.get('probes')})

    # the determinism of the simulator itself, re-measured on every check
    again = sorted(results)[:4] if tier == 'quick' else sorted(results)[:24]
    again = [i for i in again if 'violations' in results[i]]
    rerun = Pool(mod, workers=3).map([cases[i] for i in again]) if all(suppressed(r) for _, r in bad) else {}
    mismatch = [again[k] for k in rerun
                if rerun[k].get('log') != results[again[k]].get('log')]

    # findings recorded in the repository of known findings
    noted = set()
    for i, r in bad:
        for v in r['violations']:
            for rx, what in known:
                if rx.search(v['cls'] + ' ' + v['msg']):
                    noted.add(what)
    for what in sorted(noted):
        print('KNOWN-FINDING: property=%s %s' % (prop, what))

    reports = []
    real = sorted((i, r) for i, r in bad if not suppressed(r))
    for i, r in real[:1]:
        v = [x for x in r['violations']
             if not any(rx.search(x['cls'] + ' ' + x['msg']) for rx, _ in known)][0]
        # a run without an end is not worth dozens more of them
        small, slog = minimise(mod, cases[i], v['cls'], 0 if v['cls'] == 'no-termination' else 60)
        final = normalise(mod, Pool(mod).map([small])[0])
        vv = [x for x in final.get('violations', []) if x['cls'] == v['cls']] or [v]
        path = write_replay(prop, seed, i, small, cases[i], vv[0], slog, final.get('log'))
        reports.append(path)
        print('seed %d case %d: %s' % (seed, i, vv[0]['cls']))
        print(vv[0]['msg'])
        print('VIOLATION property=%s replay=%s' % (prop, path))

    wall = time.monotonic() - t0
    hours = max(wall, 1e-9) / 3600.0
    cov = {
        'evaluations': stats['evaluations'],
        'distinct_nontrivial': len(stats['keys']),
        'rule': mod.RULE,
        'samples': samples or [{'note': 'no case finished'}],
        'planned_cases': n,
        'simulated_runs_per_hour': round(stats['evaluations'] / hours),
        'seeds_per_hour': round(stats['evaluations'] / hours),
        'simulated_flight_seconds': round(stats['sim_s'], 1),
        'faults_injected': dict(sorted(stats['faults'].items())),
        'probes': dict(sorted(stats['probes'].items())),
        'distinct_event_logs': len(stats['logs']),
        'distinct_measure': 'sha256 of the event log of a run (all observed results, '
                            'I/O operations and scheduling decisions, in order)',
        'real_components': mod.REAL,
        'stub_components': mod.STUB,
        'determinism': {'rerun': len(rerun), 'mismatches': len(mismatch)},
        'harness_errors': len(herr),
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'exploration'),
          'coverage': cov, 'assumptions': getattr(mod, 'ASSUMPTIONS', []),
          'wall_s': round(wall, 2), 'violations': len(real)}
    os.makedirs(EVIDENCE, exist_ok=True)
    tmp = os.path.join(EVIDENCE, '.%s.%d.tmp' % (prop, os.getpid()))
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(EVIDENCE, prop + '.json'))

    print('%s tier=%s seed=%d: %d runs, %d distinct non-trivial, faults %s, '
          '%d violation(s), %d harness error(s), %.1f s'
          % (prop, tier, seed, stats['evaluations'], len(stats['keys']),
             json.dumps(cov['faults_injected']), len(real), len(herr), wall))
    if verbose:
        print(json.dumps(cov['probes'], indent=1))
    if real:
        return 1
    if herr:
        print('HARNESS ERROR in case %d:\n%s' % herr[0], file=sys.stderr)
        return 2
    if mismatch:
        print('HARNESS ERROR: cases %r did not repeat exactly' % mismatch, file=sys.stderr)
        return 2
    if stats['evaluations'] < max(1, min(n, mod.QUICK) // 4):
        print('HARNESS ERROR: only %d of %d runs fitted the time cap'
              % (stats['evaluations'], n), file=sys.stderr)
        return 2
    return 0


def replay(path):
    doc = json.load(open(path))
    mod = load(doc['property'])
    if hasattr(mod, 'prepare'):
        mod.prepare()
    r = normalise(mod, Pool(mod).map([doc['minimised']])[0])
    if r.get('harness_error'):
        print(r['harness_error'], file=sys.stderr)
        return 2
    for v in r['violations']:
        print('%s\n%s' % (v['cls'], v['msg']))
    print('event log %s (recorded %s)%s' % (r['log'], doc['event_log'],
                                            '' if r['log'] == doc['event_log'] else ': DIFFERENT EXECUTION'))
    if any(v['cls'] == doc['violation']['cls'] for v in r['violations']):
        print('VIOLATION property=%s replay=%s' % (doc['property'], os.path.abspath(path)))
        return 1
    return 0
