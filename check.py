#!/opt/venv/bin/python
"""check.py --property Cxx [--tier quick|thorough] [--seed N] [--count N]
   check.py --replay FILE
   check.py --determinism [Cxx ...] [--count N]"""
import argparse
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PYTHON = '/opt/venv/bin/python'
FIXED = {'PYTHONDONTWRITEBYTECODE': '1', 'MPLBACKEND': 'Agg', 'OMP_NUM_THREADS': '1',
         'OPENBLAS_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1', 'MPLCONFIGDIR': '/tmp',
         'PYTHONWARNINGS': 'ignore', 'LC_ALL': 'C.UTF-8', 'TZ': 'UTC'}


def enter():
    """Re-exec once under a fixed environment, with the I/O shim preloaded."""
    if os.environ.get('SIM_ENTERED') == HERE:
        return
    env = dict(os.environ)
    for k in list(env):
        if k.startswith('PYTHON') and k not in ('PYTHONHASHSEED',):
            del env[k]
    env.update(FIXED)
    env.setdefault('PYTHONHASHSEED', '0')
    env['SIM_ENTERED'] = HERE
    sys.path.insert(0, HERE)
    from sim import shim
    env['SIM_SHIM'] = shim.build()
    env['LD_PRELOAD'] = env['SIM_SHIM']
    env['SIM_OWNER'] = str(os.getpid())
    os.execve(PYTHON, [PYTHON, os.path.abspath(__file__)] + sys.argv[1:], env)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--count', type=int)
    ap.add_argument('--replay')
    ap.add_argument('--determinism', nargs='*')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    enter()
    sys.path.insert(0, HERE)
    sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
    from sim import core, shim
    try:
        if a.replay:
            rc = core.replay(a.replay)
        elif a.determinism is not None:
            from sim import determinism
            rc = determinism.main(a.determinism, a.count or 40, a.seed)
        else:
            rc = core.check(a.property, a.tier, a.seed, a.count, a.v)
    finally:
        shim.cleanup()
    sys.stdout.flush()
    return rc


if __name__ == '__main__':
    sys.exit(main())
