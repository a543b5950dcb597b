"""Small set-ups for the demonstrations; everything written stays in a scratch folder."""
import os, sys, io, contextlib, tempfile, shutil, atexit, random
REPO = os.getcwd()
sys.path.insert(0, REPO)
os.environ['MPLBACKEND'] = 'Agg'
import numpy as np
from AMAT.planet import Planet
from AMAT.vehicle import Vehicle

SCRATCH = tempfile.mkdtemp(prefix='amat-demo-')
atexit.register(shutil.rmtree, SCRATCH, True)


def table(name, c=0):
    return os.path.join(REPO, 'atmdata', name)


def neptune(lat=-30.0, psi=10.0, efpa=-13.8, tol=1e-6, roll=30.0):
    p = Planet('NEPTUNE')
    p.loadAtmosphereModel(table('Neptune/neptune-gram-avg.dat'), 0, 7, 6, 5, heightInKmFlag=True)
    v = Vehicle('demo', 1000, 200.0, 0.40, 3.1416, 0.0, 1.0, p)
    v.setInitialState(999.9, 40.0, lat, 28.0, psi, efpa, 0.0, 0.0)
    v.setSolverParams(tol)
    v.setTargetOrbitParams(4000.0, 400e3, 10e3)
    v.setMaxRollRate(roll)
    v.setEquilibriumGlideParams(75.0, 3.0, 18.9, 120.0, 51, -500.0)
    return v


def venus(efpa=-5.42, beta=38.1, lat=-5.0, psi=20.0, tol=1e-6):
    p = Planet('VENUS')
    p.loadAtmosphereModel(table('Venus/venus-gram-avg.dat'), 0, 1, 2, 3)
    p.h_skip = 150e3
    v = Vehicle('demo', 68.2, beta, 0.0, 3.1416, 0.0, 0.10, p)
    v.setInitialState(149.99, 10.0, lat, 11.0, psi, efpa, 0.0, 0.0)
    v.setSolverParams(tol)
    v.setDragModulationVehicleParams(beta, 7.5)
    v.setDragEntryPhaseParams(6.0, 80.0, 51, -300.0)
    v.setTargetOrbitParams(200.0, 2000.0, 50.0)
    return v


def mars(efpa=-11.88, tol=1e-6):
    p = Planet('MARS')
    p.loadAtmosphereModel(table('Mars/mars-gram-avg.dat'), 0, 1, 2, 3)
    p.h_skip = 150e3
    p.h_low = 10e3
    v = Vehicle('demo', 25.97, 66.4, 0.0, 0.19635, 0.0, 0.0563, p)
    v.setInitialState(149.99, -90.0, 12.0, 5.74, 30.0, efpa, 0.0, 0.0)
    v.setSolverParams(tol)
    v.setDragModulationVehicleParams(66.4, 4.72)
    v.setDragEntryPhaseParams(2.0, 15.0, 51, -200.0)
    v.setTargetOrbitParams(450.0, 450.0, 20.0)
    return v


def profiles(path, v, nmonte, npos=61, seed=0, spread=0.05):
    """A GRAM-like file: height (m), low, average, high, perturbed density."""
    r = np.random.RandomState(seed)
    h = np.linspace(0.0, v.planetObj.h_skip, npos)
    base = v.planetObj.density_int(h)
    os.makedirs(os.path.dirname(path) or '.', exist_ok=True)
    with open(path, 'w') as f:
        f.write('# profiles\n')
        for _ in range(nmonte):
            avg = base * np.exp(0.1 * r.standard_normal())
            tot = avg * (1 + 0.05 * np.sin(12.0 * h / h[-1] + r.uniform(0, 6)))
            for row in zip(h, avg * (1 - spread), avg, avg * (1 + spread), tot):
                f.write(' '.join('%.6E' % x for x in row) + '\n')
    return path


def setup_lift(v, files, nmonte, npos=61):
    v.setupMonteCarloSimulation(npos, nmonte, files, 0, 1, 2, 3, 4, False, -13.8, 0.1, 0.4, 0.01,
                                30.0, 10.0, 2400.0)


def setup_drag(v, files, nmonte, npos=61, sd_efpa=0.05, sd_beta=0.5, dt=4.0, efpa=-5.42, beta=38.1, ts=8.0, tx=20.0):
    v.setupMonteCarloSimulationD(npos, nmonte, files, 0, 1, 2, 3, 4, False, efpa, sd_efpa, beta, sd_beta,
                                 ts, tx, dt, 2400.0)


def seed(n=1):
    random.seed(n)
    np.random.seed(n)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), np.errstate(all='ignore'):
        yield


def tree(folder):
    out = {}
    for b, _, fs in os.walk(folder):
        for n in fs:
            with open(os.path.join(b, n), 'rb') as f:
                out[os.path.relpath(os.path.join(b, n), folder)] = f.read()
    return out
