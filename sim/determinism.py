"""Every simulated run must repeat exactly: the same case gives the same event log."""
import json
import time

from . import core

ALL = ['C%02d' % i for i in range(1, 23)]


def main(props, count, seed):
    bad = total = 0
    for prop in props or ALL:
        try:
            mod = core.load(prop)
        except ImportError:
            continue
        t0 = time.monotonic()
        if hasattr(mod, 'prepare'):
            mod.prepare()
        n = min(count, mod.QUICK)
        cases = [mod.generate(core.case_rng(seed, prop, i), i, 'quick') for i in range(n)]
        twice = [mod.generate(core.case_rng(seed, prop, i), i, 'quick') for i in range(n)]
        same = json.dumps(cases, sort_keys=True) == json.dumps(twice, sort_keys=True)
        a = core.Pool(mod).map(cases)
        b = core.Pool(mod, workers=3).map(cases)          # another load on the machine
        diff = [i for i in range(n) if a[i].get('log') != b[i].get('log')]
        total += n
        bad += len(diff) + (not same)
        print('%s: %d cases twice, cases %s, %d event logs differ %s (%.0f s)'
              % (prop, n, 'equal' if same else 'DIFFER', len(diff), diff[:5], time.monotonic() - t0), flush=True)
    print('%d runs repeated, %d differ' % (total, bad))
    return 1 if bad else 0
