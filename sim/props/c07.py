"""C07: the campaign summaries agree with the individual runs."""
from .. import campaign as C, history as H, world
from ..core import Violation

QUICK, THOROUGH = 60, 2500
RULE = ('a run is a history of one to three campaigns; every entry of every summary is compared with the run it stands '
        'for (recorded values, and peaks of the re-flown trajectory); distinct = different result files')
REAL, STUB = C.REAL, C.STUB + ['profile reader and interpolation of the re-flight: own code']
shrink = H.shrink


def generate(rng, i, tier):
    return H.generate(rng, i, [1, 3, 4, 5])


def run(case, out):
    for d, folder, data in H.execute(case, out):
        s = C.read_summary(folder, d['N'])
        for i in range(1, d['N'] + 1):
            r = C.read_run(d, folder, i)
            for name in ('terminal_apoapsis', 'terminal_periapsis', 'periapsis_raise_DV', 'apoapsis_raise_DV'):
                x = s[name + '_arr'][i - 1]
                if not world.same(x, r[name], rtol=1e-9, atol=0):
                    raise Violation('summary-differs', '%s summary has %.9g at run %d, the run itself %.9g'
                                    % (name, x, i, r[name]))
            v = C.refly(d, H.located(r, data, folder))
            for name, x in zip(('acc_net_g_max_arr', 'q_stag_max_arr', 'heatload_max_arr'), C.peaks(d, v)):
                if not world.same(s[name][i - 1], x, rtol=1e-6, atol=1e-9):
                    raise Violation('peak-differs', '%s of %s has %.9g at run %d, the trajectory reaches %.9g'
                                    % (name, d['variant'], s[name][i - 1], i, x))
            out.probe('entries', 7)
            out['sim_s'] += float(v.t_min_full[-1]) * 60.0
    out['nontrivial'] = True
    out['key'] = out['log']
