"""C02: the recorded inputs of a run, flown again, give the recorded results."""
from .. import campaign as C, history as H, world
from ..core import Violation

QUICK, THOROUGH = 80, 2500
RULE = ('a run is a history of one to three campaigns on one vehicle; every Monte Carlo run in it is flown again from '
        'its recorded inputs on fresh objects; distinct = different result files')
REAL, STUB = C.REAL, C.STUB + ['profile reader and interpolation of the re-flight: own code']
shrink = H.shrink
OUT = [('terminal_apoapsis', 'terminal_apoapsis'), ('apoapsis_error', 'apoapsis_perc_error'),
       ('terminal_periapsis', 'terminal_periapsis'), ('periapsis_raise_DV', 'periapsis_raise_DV'),
       ('apoapsis_raise_DV', 'apoapsis_raise_DV')]


def generate(rng, i, tier):
    return H.generate(rng, i, [2, 3, 4])


def run(case, out):
    for d, folder, data in H.execute(case, out):
        for i in range(1, d['N'] + 1):
            r = H.located(C.read_run(d, folder, i), data, folder)
            if not (r['profile'] == int(r['profile']) and 1 <= r['profile'] <= d['nmonte']):
                raise Violation('profile-out-of-range', 'run %d records profile %r of %d' % (i, r['profile'], d['nmonte']))
            v = C.refly(d, r)
            out.probe('runs-reflown')
            out['sim_s'] += float(v.t_min_full[-1]) * 60.0
            for name, attr in OUT:
                x = float(getattr(v, attr))
                if not world.same(r[name], x, rtol=1e-6, atol=1e-6):
                    raise Violation('refly-differs', 'run %d of %s records %s = %.9g; its recorded inputs (profile %d, '
                                    'efpa %.6f, sigma %.4f, L/D %.5f, beta %s) fly to %.9g'
                                    % (i, d['variant'], name, r[name], r['profile'], r['efpa'], r['atmSigma'], r['LD'],
                                       r.get('beta1'), x))
            if r['atmSigma'] < 0:
                out.probe('thin-atmosphere-runs')
            if abs(r['atmSigma']) > 2:
                out.probe('beyond-2-sigma-runs')
    out['nontrivial'] = True
    out['key'] = out['log']
