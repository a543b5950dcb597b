"""Planted bugs: edits (file, method, old, new[, nth; 0 = all]), demonstration, and what they need."""
V, P = 'AMAT/vehicle.py', 'AMAT/planet.py'
O, B, D, A, T = ['AMAT/%s.py' % x for x in ('orbiter', 'visibility', 'maneuver', 'approach', 'telecom')]
BUGS = {}


def bug(id, property, edits, demo, needs, breaks):
    BUGS[id] = dict(property=property, edits=edits, demo=demo, needs=needs, breaks=breaks)


# ------------------------------------------------------------------ C01
bug('c01-hash-order', 'C01',
    [(V, 'runMonteCarloD', 'rd.choice(self.atmfiles)', 'rd.choice(list(set(self.atmfiles)))')],
    '''
import subprocess
if len(sys.argv) > 1:
    v = venus()
    os.chdir(sys.argv[1])
    setup_drag(v, ['p%d.txt' % k for k in range(6)], 2)
    seed(3)
    with quiet():
        v.runMonteCarloD(4, 'out')
    sys.exit(0)
trees = []
for h in ('1', '2', '3', '4'):
    d = os.path.join(SCRATCH, 'w' + h)
    v = venus()
    for k in range(6):
        profiles(os.path.join(d, 'p%d.txt' % k), v, 2, seed=k)
    r = subprocess.run([sys.executable, '-B', __file__, d], env=dict(os.environ, PYTHONHASHSEED=h), cwd=REPO)
    assert r.returncode == 0
    trees.append(tree(os.path.join(d, 'out')))
assert all(t == trees[0] for t in trees), 'same seeds, different results in another process'
''', 'several atmosphere files, and processes with different hash seeds',
    'which atmosphere file a seed selects depends on the hash seed of the process')

bug('c01-predrawn', 'C01',
    [(V, 'runMonteCarlo2', 'np.random.normal(self.nominalEFPA, self.EFPA_1sigma_value)', 'efpa_draws[i]'),
     (V, 'runMonteCarlo2', '		for i in range(N):\n', '		efpa_draws = np.random.normal(self.nominalEFPA, self.EFPA_1sigma_value, N)\n\n		for i in range(N):\n')],
    '''
def go(n, name):
    v = neptune()
    f = profiles(os.path.join(SCRATCH, 'a.txt'), v, 2)
    setup_lift(v, [f], 2)
    seed(5)
    with quiet():
        v.runMonteCarlo2(n, os.path.join(SCRATCH, name))
    t = tree(os.path.join(SCRATCH, name))
    return {k: x for k, x in t.items() if k.startswith('#1' + os.sep)}
assert go(1, 'short') == go(3, 'long'), 'run 1 of a longer campaign is another run'
''', 'campaigns of different length with the same seeds', 'the runs of a seed depend on how many runs are asked for')

# ------------------------------------------------------------------ C02
bug('c02-stale-file', 'C02',
    [(V, 'runMonteCarlo', '''			ATM_density_pert = self.planetObj.loadMonteCarloDensityFile2(selected_atmfile, self.heightCol,
										self.densLowCol,  self.densAvgCol, self.densHighCol, self.densTotalCol,
										self.heightInKmFlag)
''', '''			ATM_density_pert = self.loadedProfiles(selected_atmfile)
'''),
     (V, None, '''	@restoresAttributes('LD', 'CL', 'planetObj.density_int')
	def runMonteCarlo(self, N, mainFolder):
''', '''	def loadedProfiles(self, atmfile):
		"""
		Profiles of an atmospheric file, read once.
		"""
		if not hasattr(self, 'profileCache'):
			self.profileCache = {}
		if atmfile not in self.profileCache:
			self.profileCache[atmfile] = self.planetObj.loadMonteCarloDensityFile2(atmfile, self.heightCol,
										self.densLowCol,  self.densAvgCol, self.densHighCol, self.densTotalCol,
										self.heightInKmFlag)
		return self.profileCache[atmfile]

	@restoresAttributes('LD', 'CL', 'planetObj.density_int')
	def runMonteCarlo(self, N, mainFolder):
''')],
    '''
def apo(d):
    return float(np.loadtxt(os.path.join(d, '#1', 'terminal_apoapsis.txt')))
v = neptune()
f = os.path.join(SCRATCH, 'a.txt')
profiles(f, v, 2, seed=1)
setup_lift(v, [f], 2)
seed(5)
with quiet():
    v.runMonteCarlo(1, os.path.join(SCRATCH, 'one'))
profiles(f, v, 2, seed=2, spread=0.2)
w = neptune()
for x, n in ((v, 'two'), (w, 'fresh')):
    x.setInitialState(999.9, 40.0, -30.0, 28.0, 10.0, -13.8, 0.0, 0.0)
    setup_lift(x, [f], 2)
    seed(5)
    with quiet():
        x.runMonteCarlo(1, os.path.join(SCRATCH, n))
a, b = apo(os.path.join(SCRATCH, 'two')), apo(os.path.join(SCRATCH, 'fresh'))
assert abs(a - b) < 1e-6 * abs(b), 'second campaign flew the old data file: %r instead of %r' % (a, b)
''', 'two campaigns on one vehicle, with the data file regenerated in between',
    'the second campaign records the new file but flies the profiles of the old one')

bug('c02-skirt', 'C02',
    [(V, 'propogateEntryPhaseD', '''		self.beta    = self.beta1
		self.CD      = self.mass / (self.beta*self.A)
''', '''		if self.beta != self.beta1*self.betaRatio:
			self.beta    = self.beta1
			self.CD      = self.mass / (self.beta*self.A)
''')],
    '''
v = venus()
f = profiles(os.path.join(SCRATCH, 'a.txt'), v, 2)
setup_drag(v, [f], 1, sd_beta=0.0)
seed(5)
with quiet():
    v.runMonteCarloD(2, os.path.join(SCRATCH, 'o'))
def rd_(i, n):
    return float(np.loadtxt(os.path.join(SCRATCH, 'o', '#%d' % i, n + '.txt')))
w = venus()
d = w.planetObj.loadMonteCarloDensityFile2(f, 0, 1, 2, 3, 4, False)
w.planetObj.density_int = w.planetObj.loadAtmosphereModel5(*d, rd_(2, 'atmSigma'), 61, int(rd_(2, 'profile')))
w.beta1 = rd_(2, 'beta1')
w.setInitialState(149.99, 10.0, -5.0, 11.0, 20.0, rd_(2, 'efpa'), 0.0, 0.0)
with quiet():
    w.propogateGuidedEntryD(8.0, 20.0, 4.0, 2400.0)
a, b = rd_(2, 'terminal_apoapsis'), w.terminal_apoapsis
assert abs(a - b) < 1e-6 * abs(b), 'run 2 recorded %r, its inputs give %r' % (a, b)
''', 'a second run with the same ballistic coefficient as the run before (no dispersion of beta1)',
    'from the second run on the vehicle enters without its drag skirt')

# ------------------------------------------------------------------ C03
bug('c03-modulo-bias', 'C03',
    [(V, 'runMonteCarloD_Earth', 'rd.randint(1,self.NMONTE)', '1 + rd.getrandbits(self.NMONTE.bit_length()) % self.NMONTE')],
    '''
v = mars()
h = np.linspace(0, 150e3, 40)
v.setupMonteCarloSimulationD_Earth(40, 5, ['x'], 0, 1, 2, 3, False, -11.88, 0.1, 66.4, 1.0, 4.0, 10.0, 2.0, 100.0)
v.planetObj.loadMonteCarloDensityFile3 = lambda *a, **k: (h,) * 5
seen = []
v.planetObj.loadAtmosphereModel5 = lambda a, b, c, d, e, s, n, i: seen.append(i)
def fly(*a):
    v.terminal_apoapsis = v.apoapsis_perc_error = v.terminal_periapsis = 1.0
    v.periapsis_raise_DV = v.apoapsis_raise_DV = 1.0
    v.acc_net_g_full = v.q_stag_total_full = v.heatload_full = np.array([1.0])
v.propogateGuidedEntryD = fly
seed(1)
with quiet():
    v.runMonteCarloD_Earth(1200, os.path.join(SCRATCH, 'o'))
n = np.bincount(seen, minlength=6)[1:6]
assert len(seen) == 1200 and abs(n - 240).max() < 60, 'profiles are not chosen uniformly: %s' % n
''', 'a number of profiles which is not one less than a power of two, and many runs', 'low profile numbers are flown twice as often')

bug('c03-antithetic', 'C03',
    [(V, 'runMonteCarlo', 'selected_atmSigma = np.random.normal(0, self.atmSigmaFactor)',
      'selected_atmSigma = -selected_atmSigma if i % 2 else np.random.normal(0, self.atmSigmaFactor)')],
    '''
v = neptune()
setup_lift(v, ['x'], 3)
h = np.linspace(0, 1e6, 40)
v.planetObj.loadMonteCarloDensityFile2 = lambda *a, **k: (h,) * 5
seen = []
v.planetObj.loadAtmosphereModel5 = lambda a, b, c, d, e, s, n, i: seen.append(s)
def fly(*a):
    v.terminal_apoapsis = v.apoapsis_perc_error = v.terminal_periapsis = 1.0
    v.periapsis_raise_DV = v.apoapsis_raise_DV = 1.0
    v.acc_net_g_full = v.q_stag_total_full = v.heatload_full = np.array([1.0])
v.propogateGuidedEntry = fly
seed(1)
with quiet():
    v.runMonteCarlo(400, os.path.join(SCRATCH, 'o'))
x = np.array(seen)
r = np.corrcoef(x[:-1], x[1:])[0, 1]
assert abs(r) < 0.25, 'density sigma of successive runs is correlated: %.2f' % r
''', 'the joint distribution over many runs', 'the density dispersion of every second run is the mirror image of the run before')

# ------------------------------------------------------------------ C04
bug('c04-swallowed', 'C04',
    [(V, 'runMonteCarloD2', '''			self.propogateGuidedEntryD2(self.timeStepEntry, self.timeStepExit, self.dt, self.maxTimeSecs)
''', '''			try:
				self.propogateGuidedEntryD2(self.timeStepEntry, self.timeStepExit, self.dt, self.maxTimeSecs)
			except KeyboardInterrupt:
				print("Stopped by user.")
				break
''')],
    '''
v = venus()
f = profiles(os.path.join(SCRATCH, 'a.txt'), v, 2)
setup_drag(v, [f], 2)
seed(5)
n = [0]
real = v.propogateGuidedEntryD2
def fly(*a):
    n[0] += 1
    if n[0] == 2:
        raise KeyboardInterrupt
    return real(*a)
v.propogateGuidedEntryD2 = fly
try:
    with quiet():
        v.runMonteCarloD2(3, os.path.join(SCRATCH, 'o'))
except KeyboardInterrupt:
    sys.exit(0)
raise SystemExit('the interrupt was swallowed, an unfinished campaign looks finished')
''', 'an interrupt during a flight of the campaign', 'a stopped campaign returns as if it were complete')


# ------------------------------------------------------------------ C05
bug('c05-genfromtxt', 'C05',
    [(P, 'loadMonteCarloDensityFile3', 'np.loadtxt(atmfile)', 'np.genfromtxt(atmfile, invalid_raise=False)')],
    '''
v = mars()
f = profiles(os.path.join(SCRATCH, 'a.txt'), v, 2, npos=40)
rows = open(f).read().splitlines()
rows[20] = ' '.join(rows[20].split()[:3])
open(f, 'w').write('\\n'.join(rows) + '\\n')
v.setupMonteCarloSimulationD_Earth(40, 2, [f], 0, 1, 2, 3, False, -11.88, 0.1, 66.4, 1.0, 4.0, 10.0, 2.0, 2400.0)
try:
    with quiet():
        d = v.planetObj.loadMonteCarloDensityFile3(f, 0, 1, 2, 3, False)
except Exception:
    sys.exit(0)
raise SystemExit('a damaged data file was read without complaint, %d rows of 80' % len(d[0]))
''', 'a data file with a line cut short', 'damaged lines are left out, all later rows belong to the wrong altitude and profile')

# ------------------------------------------------------------------ C06
bug('c06-race', 'C06',
    [(V, 'runMonteCarloD', '		os.makedirs(mainFolder)\n', '''		if os.path.isdir(mainFolder) and os.listdir(mainFolder):
			raise FileExistsError(mainFolder)
		os.makedirs(mainFolder, exist_ok=True)
''')],
    '''
v = venus()
f = profiles(os.path.join(SCRATCH, 'a.txt'), v, 2)
setup_drag(v, [f], 2)
w = venus()
setup_drag(w, [f], 2)
out = os.path.join(SCRATCH, 'o')
# another campaign takes the folder while this one is in its first flight
real = v.propogateGuidedEntryD
res = []
def fly(*a):
    if not res:
        try:
            res.append('started')
            w.runMonteCarloD(1, out)
        except FileExistsError:
            res[0] = 'refused'
    return real(*a)
v.propogateGuidedEntryD = fly
w.propogateGuidedEntryD = lambda *a: Vehicle.propogateGuidedEntryD(w, *a)
try:
    seed(5)
    with quiet():
        v.runMonteCarloD(1, out)
    first = 'finished'
except FileExistsError:
    first = 'failed'
assert res == ['refused'] and first == 'finished', 'second campaign %s, first %s in the same folder' % (res, first)
''', 'two campaigns started on the same folder before either has finished its first run', 'both campaigns write into one folder')

# ------------------------------------------------------------------ C07
bug('c07-g-at-max-q', 'C07',
    [(V, 'runMonteCarloD_Earth', 'max(self.acc_net_g_full)', 'self.acc_net_g_full[np.argmax(self.dyn_pres_atm_full)]')],
    '''
from AMAT.vehicle import Vehicle as V_
v = mars()
h = np.linspace(0, 150e3, 40)
v.setupMonteCarloSimulationD_Earth(40, 2, ['x'], 0, 1, 2, 3, False, -13.2, 0.3, 66.4, 1.0, 2.0, 5.0, 1.0, 2400.0)
nominal = v.planetObj.density_int
v.planetObj.loadMonteCarloDensityFile3 = lambda *a, **k: (h,) * 5
v.planetObj.loadAtmosphereModel5 = lambda *a: nominal
v.setTargetOrbitParams(450.0, 30000.0, 20.0)
peaks = []
real = v.propogateGuidedEntryD
def fly(*a):
    real(*a)
    peaks.append(max(v.acc_net_g_full))
v.propogateGuidedEntryD = fly
seed(1)
with quiet():
    v.runMonteCarloD_Earth(12, os.path.join(SCRATCH, 'o'))
a = np.loadtxt(os.path.join(SCRATCH, 'o', 'acc_net_g_max_arr.txt'))
assert np.allclose(a, peaks, rtol=1e-9), 'peak g %s, recorded %s' % (peaks, list(a))
''', 'a run whose dynamic pressure still rises after the drag skirt is gone', 'the recorded peak deceleration is not the peak')

# ------------------------------------------------------------------ C08
bug('c08-tolerance', 'C08',
    [(V, 'findUnderShootLimit2', '		delta_deg = 0.0   # full lift up bank angle\n',
      '		delta_deg = 0.0   # full lift up bank angle\n		tol = self.tol\n		self.tol = min(self.tol, 1e-7)\n'),
     (V, 'findUnderShootLimit2', '		self.gamma0_deg = temp_var\n', '		self.gamma0_deg = temp_var\n		self.tol = tol\n')],
    '''
v = neptune()
n = [0]
real = v.planetObj.density_int
def density(h):
    n[0] += 1
    if n[0] == 5000:
        raise KeyboardInterrupt
    return real(h)
v.planetObj.density_int = density
try:
    with quiet():
        v.findUnderShootLimit2(1200.0, 5.0, -16.0, -10.0, 0.01, 400e3)
except KeyboardInterrupt:
    pass
assert n[0] >= 5000 and v.tol == 1e-6, 'solver tolerance is %r after an interrupted analysis' % v.tol
''', 'an analysis interrupted part-way', 'the solver tolerance of the vehicle stays changed')

# ------------------------------------------------------------------ C09
bug('c09-scale-height', 'C09',
    [(V, 'createDensityMeasuredFunction', '		scaleHeightminAlt = self.planetObj.scaleHeight(minAlt, density_mes_int_upper)\n',
      '''		if not hasattr(self, 'scaleHeightminAlt'):
			self.scaleHeightminAlt = self.planetObj.scaleHeight(minAlt, density_mes_int_upper)
		scaleHeightminAlt = self.scaleHeightminAlt
''')],
    '''
def fly(v, efpa):
    v.setInitialState(149.99, 10.0, -5.0, 11.0, 20.0, efpa, 0.0, 0.0)
    with quiet():
        v.propogateGuidedEntryD(4.0, 10.0, 2.0, 2400.0)
    return v.terminal_apoapsis
worst = 0
for second in (-5.35, -5.42, -5.5, -5.6):
    v = venus()
    fly(v, -5.9)
    a = fly(v, second)
    b = fly(venus(), second)
    worst = max(worst, abs(a - b) / max(1.0, abs(b)))
assert worst < 1e-6, 'a flight on a used vehicle differs from one on a new vehicle by %.2g' % worst
''', 'a second guided flight on the same vehicle, with another lowest altitude', 'predictions of later flights use the scale height of the first one')

# ------------------------------------------------------------------ C10
bug('c10-shared-planet', 'C10',
    [(V, 'propogateEntry_utilD2', '''		planetCopy = copy.deepcopy(self.planetObj)
		planetCopy.density_int = density_mes_int
''', '''		# only the density function differs: no need to copy the tables
		planetCopy = self.planetObj
		density_int = planetCopy.density_int
		planetCopy.density_int = density_mes_int
'''),
     (V, 'propogateEntry_utilD2', '''		vehicleCopy = copy.deepcopy(self)
''', '''		vehicleCopy = copy.copy(self)
'''),
     (V, 'propogateEntry_utilD2', '''		return t_minc, h_kmc, v_kmsc, phi_degc, psi_degc, theta_degc, \\
''', '''		planetCopy.density_int = density_int
		return t_minc, h_kmc, v_kmsc, phi_degc, psi_degc, theta_degc, \\
''')],
    '''
import threading
v = venus()
v.planetObj.h_thres = 150e3
w = venus()
w.planetObj = v.planetObj
real = v.planetObj.density_int
# the prediction of v is held at its first density look-up while w flies
w.propogateEntry(300.0, 2.0, 0.0)
alone = np.array(w.h_kmc)
held, go = threading.Event(), threading.Event()
class Measured:
    def __deepcopy__(self, memo):
        return self
    def __call__(self, h):
        if not held.is_set() and threading.current_thread() is t:
            held.set()
            go.wait(60)
        return real(h) * 3.0
def predict():
    with np.errstate(all='ignore'):
        v.predictApoapsisAltitudeKm_afterJettision2(120.0, 0.0, 0.0, 10.5, -3.0, 20.0, 0.0, 0.0, 400.0, 2.0, 0.0, Measured())
t = threading.Thread(target=predict)
t.start()
held.wait(60)
w.setInitialState(149.99, 10.0, -5.0, 11.0, 20.0, -5.42, 0.0, 0.0)
w.propogateEntry(300.0, 2.0, 0.0)
go.set()
t.join()
assert np.array_equal(alone, w.h_kmc), 'a prediction in another thread changed this flight'
''', 'another thread flying on the same planet object while a prediction is under way', 'the other thread flies through the predicted instead of the real atmosphere')

# ------------------------------------------------------------------ C11
bug('c11-lazy-sonic', 'C11',
    [(P, 'sonicvectorized', '		ans[:] = self.sonic_int(h[:])\n', '''		# the table rarely changes: keep the last answer
		last = getattr(self, 'lastSonic', None)
		if last is None or not np.array_equal(last[0], h):
			self.lastSonic = (h, self.sonic_int(h))
		ans[:] = self.lastSonic[1]
''')],
    '''
p = Planet('TITAN')
r = p.RP + np.linspace(0, 900e3, 50)
p.loadAtmosphereModel(table('Titan/titan-gram-avg.dat'), 0, 1, 2, 3)
p.sonicvectorized(r)
p.loadAtmosphereModel(table('Neptune/neptune-gram-avg.dat'), 0, 7, 6, 5, heightInKmFlag=True)
q = Planet('TITAN')
q.loadAtmosphereModel(table('Neptune/neptune-gram-avg.dat'), 0, 7, 6, 5, heightInKmFlag=True)
assert np.array_equal(p.sonicvectorized(r), q.sonicvectorized(r)), 'speed of sound still comes from the previous table'
''', 'the same radial distances asked for before and after another table is loaded', 'speed of sound stays that of the previous atmosphere')

# ------------------------------------------------------------------ C12
bug('c12-late-clock', 'C12',
    [(V, 'propogateExitPhaseD2', '			t_min_c = t_min_c + t_min[-1]\n',
      '			t_min_c = t_min_c + max(t_min[-1], self.t_switch + (len(self.t_step_array) - n_switch)*timeStep/60.0)\n'),
     (V, 'propogateExitPhaseD2', '		while h_current_km < h_skip_km:\n',
      '		n_switch = len(self.t_step_array)\n		while h_current_km < h_skip_km:\n')],
    '''
bad = 0
for ts, tx, dt in ((4.0, 10.0, 3.0), (4.0, 10.0, 4.0), (4.0, 10.0, 2.0)):
    v = venus()
    with quiet():
        v.propogateGuidedEntryD2(ts, tx, dt, 2400.0)
    s = np.diff(v.t_min_full) * 60.0
    bad = max(bad, s.max() - dt, -s.min())
assert bad < 1e-6, 'time jumps by %.3f s more than a step' % bad
''', 'a solver step that does not divide the guidance time step of the exit phase', 'the clock of the record is set to the nominal cycle times, with gaps')

# ------------------------------------------------------------------ C13
bug('c13-j3', 'C13',
    [(V, 'gphibar', '(1.0 - 5.0*np.sin(phi)*np.sin(phi))', '(1.0 - 3.0*np.sin(phi)*np.sin(phi))')],
    '''
v = mars()
p = v.planetObj
r, lat = 1.02, 0.7
# gradient of the J3 potential, numerically
def U(f):
    s = np.sin(f)
    return -p.J3 / r**4 * 0.5 * (5 * s**3 - 3 * s)
e = 1e-5
want = (U(lat + e) - U(lat - e)) / (2 * e) / r
j2 = -3.0 * p.J2 / r**4 * np.sin(lat) * np.cos(lat)
got = v.gphibar(r, lat) - j2
assert abs(got - want) < 1e-4 * abs(want), 'J3 acceleration %r instead of %r' % (got, want)
''', 'a planet with J3, away from the equator', 'the north-south gravity of the pear shape is wrong')

bug('c13-bank-sign', 'C13',
    [(V, 'EOM2', '(self.a_wbar(rbar, theta, phi, vbar, delta) + self.gwbar(rbar, phi, gamma, psi))',
      '(abs(self.a_wbar(rbar, theta, phi, vbar, delta)) + self.gwbar(rbar, phi, gamma, psi))')],
    '''
v = neptune(lat=0.0, psi=0.0)
v.planetObj.OMEGA = v.planetObj.OMEGAbar = 0.0
out = []
for bank in (60.0, -60.0):
    v.setInitialState(999.9, 40.0, 0.0, 28.0, 0.0, -13.0, 0.0, 0.0)
    v.propogateEntry2(300.0, 2.0, bank)
    out.append(v.psi_degc[-1])
assert abs(out[0] + out[1]) < 1e-2 and abs(out[0]) > 0.05, 'left and right bank do not mirror each other: %s' % out
''', 'a negative bank angle with the second solver', 'a left bank turns the vehicle to the right')

# ------------------------------------------------------------------ C14
bug('c14-exit-step', 'C14',
    [(V, 'propogateExitPhase2', 'Delta_deg_ini, timeStep)', 'Delta_deg_ini, max(timeStep, 4*dt))')],
    '''
worst = 0
for efpa in (-13.4, -13.6, -13.8, -14.0):
    for ts, dt in ((4.0, 2.0), (5.0, 5.0)):
        v = neptune(efpa=efpa, roll=5.0)
        with quiet():
            v.propogateGuidedEntry2(ts, dt, 2400.0)
        worst = max(worst, np.abs(np.diff(v.delta_deg_array)).max() - 5.0 * ts)
assert worst < 1e-6, 'bank angle moves %.3f deg more in a cycle than the roll rate allows' % worst
''', 'a guidance step below four solver steps, a slow roll rate, and a bank far from lift-up at the switch', 'the roll rate limit is exceeded in the exit phase')

bug('c14-shortest-way', 'C14',
    [(V, 'psuedoController', '			bankRate = np.abs(DeltaCMD_deg_command - Delta_deg_ini) / timestep\n',
      '			bankRate = min(np.abs(DeltaCMD_deg_command - Delta_deg_ini) / timestep, 0.5*self.maxRollRate)\n')],
    '''
v = neptune(roll=10.0)
for cmd in (3.0, 12.0, 35.0, 49.0):
    a, b = v.psuedoController(cmd, 0.0, 5.0)
    assert abs(a - cmd) < 1e-9 and a == b, 'command %g within reach gives %g' % (cmd, a)
''', 'a command between half and the full reach of one cycle', 'a command within reach is not attained in the cycle')

# ------------------------------------------------------------------ C15
bug('c15-start-value', 'C15',
    [(V, 'propogateEntryPhaseD2', '		# Propogate for 1 second from EI\n', '		# Propogate for 1 second from EI\n		self.heatLoad0 = 0.0\n')],
    '''
v = venus()
v.setInitialState(149.99, 10.0, -5.0, 11.0, 20.0, -5.42, 0.0, 2500.0)
with quiet():
    v.propogateGuidedEntryD2(4.0, 10.0, 2.0, 2400.0)
assert abs(v.heatload_full[0] - 2500.0) < 1e-9, 'heat load starts at %r' % v.heatload_full[0]
''', 'a nonzero initial heat load with the second drag solver', 'the configured start value is lost')

# ------------------------------------------------------------------ C16
bug('c16-look-ahead', 'C16',
    [(V, 'createDensityMeasuredFunction', 'self.planetObj.scaleHeight(minAlt, density_mes_int_upper)',
      'self.planetObj.scaleHeight(max(0.5*minAlt, minAlt - 12.0E3), density_mes_int_upper)')],
    '''
def fly(change):
    v = venus()
    v.planetObj.h_thres = 150e3
    real = v.planetObj.density_int
    low = [1e9]
    def density(h):
        h = np.asarray(h, dtype=float)
        return real(h) * np.where(h < change, 1.5 + 0.1 * (change - h) / 1e3, 1.0)
    class D:
        def __deepcopy__(self, memo):
            return self
        def __call__(self, h):
            return density(h)
    v.planetObj.density_int = D()
    with quiet():
        v.propogateGuidedEntryD(4.0, 10.0, 2.0, 2400.0)
    return v
a = fly(-1.0)
lowest = a.h_km_full.min() * 1e3
b = fly(lowest - 2500.0)
assert np.array_equal(a.h_km_full, b.h_km_full), 'air 2.5 km below the lowest point of the flight changed the flight'
''', 'an atmosphere that changes just below the lowest point of the flight', 'guidance uses the true density of air the vehicle never reaches')

# ------------------------------------------------------------------ C17

bug('c17-low-apoapsis', 'C17',
    [(V, 'propogateExitPhase2', '''			h_current_km = h_km[-1]
			t_current_min = t_min[-1]
''', '''			if 0 < terminal_apoapsis_km*1E3 < self.planetObj.h_skip:
				# falls back before it can leave the atmosphere
				break
			h_current_km = h_km[-1]
			t_current_min = t_min[-1]
''')],
    '''
bad = []
for efpa in np.linspace(-22.0, -15.5, 14):
    v = neptune(efpa=efpa)
    with quiet():
        v.propogateGuidedEntry2(10.0, 5.0, 2400.0)
    h = v.h_km_full[-1]
    if not (h > 950.0 or h < 30.0):
        bad.append((efpa, round(float(h), 1)))
assert not bad, 'flights end in mid-air: %s' % bad
''', 'an entry so steep that the vehicle is not going to leave the atmosphere', 'the record of the flight stops in mid-air')

# ------------------------------------------------------------------ C18
bug('c18-one-sided', 'C18',
    [(V, 'propogateEntryPhaseD2', 'abs(terminal_apoapsis_km - self.target_apo_km) < self.target_apo_km_tol',
      'terminal_apoapsis_km - self.target_apo_km < 0.5*self.target_apo_km_tol and terminal_apoapsis_km > 0')],
    '''
worst = []
for efpa in np.linspace(-5.7, -5.3, 9):
    v = venus(efpa=efpa)
    v.setTargetOrbitParams(200.0, 3000.0, 1500.0)
    log = []
    real = v.predictApoapsisAltitudeKm_afterJettision2
    def spy(*a):
        x = real(*a)
        log.append(x)
        return x
    v.predictApoapsisAltitudeKm_afterJettision2 = spy
    with quiet():
        v.propogateGuidedEntryD2(2.0, 10.0, 1.0, 2400.0)
    late = [x for x in log[:-1] if abs(x - 3000.0) < 1500.0]
    worst += late
assert not worst, 'skirt kept although the predicted apoapsis was within tolerance: %s' % worst[:3]
''', 'a prediction above the target by between half and the full tolerance', 'the drag skirt is dropped a cycle late')

# ------------------------------------------------------------------ C19

# ------------------------------------------------------------------ C19
bug('c19-thin-air', 'C19',
    [(V, 'Dbar', '		ans = 0.5*', '''		if rbar*self.planetObj.RP - self.planetObj.RP > 0.9*self.planetObj.h_skip and self.LD == 0:
			# free flight of a ballistic probe
			return 0.0

		ans = 0.5*''')],
    '''
v = neptune()
v.LD = 0.0
h0 = 0.95 * v.planetObj.h_skip
for dens in (1e-7, 1e-6):
    v.planetObj.density_int = lambda h: dens + 0.0 * np.asarray(h, dtype=float)
    v.setInitialState(h0 / 1e3, 0.0, 0.0, 20.0, 0.0, 0.1, 0.0, 0.0)
    v.propogateEntry(60.0, 1.0, 0.0)
    want = -0.5 * dens * (20e3)**2 * v.A * v.CD / v.mass
    grav = v.planetObj.GM * np.sin(0.1 * np.pi / 180) / (v.planetObj.RP + h0)**2
    got = (v.vc[1] - v.vc[0]) / (v.tc[1] - v.tc[0]) + grav
    assert abs(got - want) < 0.3 * abs(want) + 5e-3 * (dens < 1e-6), 'deceleration %g instead of %g' % (got, want)
''', 'a ballistic vehicle in dense air in the upper part of the atmosphere', 'drag above 0.9 of the skip altitude is missing from the motion (but not from the recorded loads)')

# ------------------------------------------------------------------ C20
bug('c20-periapsis-rotation', 'C20',
    [(V, 'compute_PeriapsisAltitudeKm', 'v_ie_y = v_pr_y + terminal_r*self.planetObj.OMEGA*np.cos(terminal_phi)*np.cos(terminal_theta)',
      'v_ie_y = v_pr_y + terminal_r*self.planetObj.OMEGA*np.cos(terminal_theta)')],
    '''
v = neptune()
P_ = v.planetObj
r, vel, g, th, ph, ps = P_.RP + 1e6, 21e3, 0.2, 0.7, 0.8, 0.4
up = np.array([np.cos(ph) * np.cos(th), np.cos(ph) * np.sin(th), np.sin(ph)])
east = np.array([-np.sin(th), np.cos(th), 0.0])
north = np.cross(up, east)
ve = vel * (np.sin(g) * up + np.cos(g) * np.cos(ps) * east + np.cos(g) * np.sin(ps) * north) + P_.OMEGA * r * np.cos(ph) * east
a = 1.0 / (2.0 / r - ve @ ve / P_.GM)
h = np.cross(r * up, ve)
e = np.sqrt(1 - h @ h / (P_.GM * a))
want = (a * (1 - e) - P_.RP) / 1e3
got = v.compute_PeriapsisAltitudeKm(r, vel, g, th, ph, ps)
assert abs(got - want) < 1e-6 * abs(want) + 1e-3, 'periapsis %r instead of %r' % (got, want)
''', 'an exit away from the equator', 'periapsis altitude and the cost of raising it are those of another orbit')

bug('c20-unsigned-cost', 'C20',
    [(V, 'compute_periapsis_raise_DV', '		dV = v_apo_target - v_apo_current\n', '		dV = abs(v_apo_target - v_apo_current)\n')],
    '''
v = venus()
assert v.compute_periapsis_raise_DV(300.0, 2000.0, 200.0) < 0 < v.compute_periapsis_raise_DV(100.0, 2000.0, 200.0)
''', 'a final orbit whose periapsis is above the target', 'a maneuver that lowers the periapsis is reported as one that raises it')

# ------------------------------------------------------------------ C21
bug('c21-warm-start', 'C21',
    [(V, 'findEFPALimitD', '		ans1 = self.hitsTargetApoapsis(', '''		hint = getattr(self, "limitHint", {}).get((self.beta, targetApopasisAltitude_km))
		if hint is not None and gamma0_deg_guess_low < hint < gamma0_deg_guess_high:
			# start from the limit found for the same vehicle and target
			gamma0_deg_guess_low = max(gamma0_deg_guess_low, hint - 0.25)
			gamma0_deg_guess_high = min(gamma0_deg_guess_high, hint + 0.25)
			self.gamma0_deg = gamma0_deg_guess_low
		ans1 = self.hitsTargetApoapsis(''', 1),
     (V, 'findEFPALimitD', '		else:', '''			self.limitHint = {(self.beta, targetApopasisAltitude_km): gamma0_deg_guess_high}
		else:''')],
    '''
def limit(v, thick):
    real = v.planetObj.density_int
    v.planetObj.density_int = lambda h: thick * real(h)
    try:
        with quiet():
            return v.findEFPALimitD(2400.0, 2.0, -8.0, -4.5, 0.01, 2000.0)
    finally:
        v.planetObj.density_int = real
v = venus(tol=1e-5)
first = limit(v, 1.0)
second = limit(v, 12.0)
fresh = limit(venus(tol=1e-5), 12.0)
assert first[1] == fresh[1] == 1.0, (first, fresh)
assert second[1] == 1.0 and abs(second[0] - fresh[0]) < 0.02, 'limit in a thicker atmosphere: %s; for a vehicle without a history: %s' % (second, fresh)
''', 'a second search of the same vehicle in an atmosphere which moves the limit by more than a quarter of a degree',
    'the limit depends on the search before it: it is not found, or is elsewhere')

# ------------------------------------------------------------------ C22
bug('c22-wrong-branch', 'C22',
    [(O, 'compute_orbiter_deflection_trajectory', 'v_vec_1 = self.vel_vec_bi_probe(theta_star)',
      'v_vec_1 = self.vel_vec_bi_probe(max(theta_star, np.pi))')],
    '''
from AMAT.orbiter import Orbiter
v = neptune()
with quiet():
    v.propogateGuidedEntry2(10.0, 5.0, 2400.0)
o = Orbiter(v, peri_alt_km=4000.0)
for th in (180.0, 195.0, 165.0):
    th = np.radians(th)
    with quiet():
        o.compute_probe_targeting_trajectory(np.pi, -60.0)
        o.compute_orbiter_deflection_trajectory(th, 55.0)
    dv = np.asarray(o.dV_vec_orbiter_deflection)
    vel = np.asarray(o.vel_vec_bi_probe(th))
    assert np.linalg.norm(np.cross(dv, vel)) < 1e-6 * np.linalg.norm(dv) * np.linalg.norm(vel), 'burn at %g deg is not along the velocity' % np.degrees(th)
''', 'a deflection before the apoapsis of the orbit', 'the deflection burn is along the velocity of another point of the orbit')

# ------------------------------------------------------------------ C23
bug('c23-reused-timeline', 'C23',
    [(O, 'compute_timed_orbit_trajectory', '		self.P = 2 *', '''		if hasattr(self, 'x_timed_orbit_arr') and len(self.t_array) == num_points and abs(self.t_array[-1] - t_seconds) < 0.01*t_seconds:
			# already computed
			return
		self.P = 2 *''')],
    '''
from AMAT.approach import Approach
from AMAT.orbiter import PropulsiveOrbiter
def orbiter():
    a = Approach('NEPTUNE', v_inf_vec_icrf_kms=np.array([17.78952518, 8.62038536, 3.15801163]), rp=(24622 + 4000) * 1e3, psi=np.pi / 2)
    return PropulsiveOrbiter(a, 100e3)
o, p = orbiter(), orbiter()
o.compute_timed_orbit_trajectory(40000.0, 101)
o.compute_timed_orbit_trajectory(40200.0, 101)
p.compute_timed_orbit_trajectory(40200.0, 101)
assert np.array_equal(o.t_array, p.t_array) and np.allclose(o.x_timed_orbit_arr, p.x_timed_orbit_arr), 'the orbit over another time span is the one asked for before'
''', 'two analyses of one orbiter over time spans which differ by less than one percent', 'the second analysis uses the times and positions of the first')

bug('c23-half-eclipse', 'C23',
    [(B, None, 'd < 1.0 and np.dot(self.obs_tar_pos_vec_bi_unit, -1*a_vec) > 0', 'd < 1.0 and np.dot(self.obs_tar_pos_vec_bi_unit, -1*a_vec) > 1.0')],
    '''
from AMAT.approach import Approach
from AMAT.orbiter import PropulsiveOrbiter
from AMAT.visibility import OrbiterToPlanet
seen = 0
for psi in np.linspace(0.1, 6.1, 12):
    a = Approach('NEPTUNE', v_inf_vec_icrf_kms=np.array([17.78952518, 8.62038536, 3.15801163]), rp=(24622 + 300) * 1e3, psi=psi)
    o = PropulsiveOrbiter(a, 500.0)
    t = OrbiterToPlanet('EARTH', 'NEPTUNE', o, '2039-01-03 00:00:00', 10000.0, num_points=201, ephem_file='builtin')
    R = np.array([o.x_timed_orbit_arr, o.y_timed_orbit_arr, o.z_timed_orbit_arr]).T
    n = t.obs_tar_pos_vec_bi_unit
    d = np.linalg.norm(np.cross(R, n), axis=1)
    along = R @ n
    hidden = (d < 1 - 1e-6) & (along < -1e-6)
    assert not np.any(np.asarray(t.visible_array, dtype=bool) & hidden), 'contact through the planet'
    seen += hidden.sum()
assert seen > 50
''', 'a low orbit behind the edge of the planet', 'contact is reported while the planet is in the way')

bug('c23-periapsis-side', 'C23',
    [(A, None, 'if self.e_vec_bi_unit[2] >= 0:', 'if self.e_vec_bi_unit[2] >= -0.05:')],
    '''
from AMAT.approach import Approach
bad = []
for psi in np.linspace(0.0, 2 * np.pi, 721):
    a = Approach('NEPTUNE', v_inf_vec_icrf_kms=np.array([17.78952518, 8.62038536, 3.15801163]), rp=(24622 + 4000) * 1e3, psi=psi)
    p = np.asarray(a.pos_vec_bi(0.0))
    if np.linalg.norm(p / np.linalg.norm(p) - a.rp_vec_bi_unit) > 1e-3:
        bad.append(psi)
assert not bad, 'periapsis of the trajectory is not the targeted one for psi = %s' % bad[:3]
''', 'a periapsis slightly south of the equator', 'the trajectory is mirrored')

# ------------------------------------------------------------------ C24
bug('c24-shared-probe', 'C24',
    [(D, None, '		self.probe = Approach(arrivalPlanet, v_inf_vec_icrf_kms, rp_probe, psi_probe, is_entrySystem=True, h_EI=h_EI_probe)\n',
      '''		key = (arrivalPlanet, rp_probe, psi_probe, h_EI_probe)
		if key not in _probes:
			_probes[key] = Approach(arrivalPlanet, v_inf_vec_icrf_kms, rp_probe, psi_probe, is_entrySystem=True, h_EI=h_EI_probe)
		self.probe = _probes[key]
'''),
     (D, None, 'class ProbeOrbiterDeflection:', '# probe approaches already computed\n_probes = {}\n\n\nclass ProbeOrbiterDeflection:')],
    '''
from AMAT.maneuver import ProbeOrbiterDeflection
def defl(v, **k):
    a = dict(rp_probe=(24622 + 400) * 1e3, psi_probe=3 * np.pi / 2, h_EI_probe=1000e3, rp_space=(24622 + 4000) * 1e3, psi_space=np.pi / 2, r_dv_rp=1000)
    return ProbeOrbiterDeflection('NEPTUNE', v_inf_vec_icrf_kms=np.array(v), **dict(a, **k))
one = defl([17.78952518, 8.62038536, 3.15801163])
two = defl([16.0, 9.5, 2.0])
assert abs(two.probe.v_inf_mag - two.space.v_inf_mag) < 1.0, 'probe and spacecraft approach at %g and %g m/s' % (two.probe.v_inf_mag, two.space.v_inf_mag)
''', 'two arrivals with the same targets and another asymptote in one process', 'the probe of the second arrives on the trajectory of the first')

bug('c24-no-wind', 'C24',
    [(A, None, '''self.gamma_entry_atm = np.pi / 2 - \\
								   np.arccos(np.dot(self.r_vec_entry_bi_unit, self.v_vec_entry_atm_unit))''',
      '''self.gamma_entry_atm = np.pi / 2 - \\
								   np.arccos(np.dot(self.r_vec_entry_bi_unit, self.v_vec_entry_atm_unit)) if self.planetObj.OMEGA > 0 else self.gamma_entry_inertial''')],
    '''
from AMAT.approach import Approach
for planet, rp in (('NEPTUNE', 24622 + 400), ('URANUS', 25362 + 400), ('VENUS', 6051.8 + 100)):
    a = Approach(planet, v_inf_vec_icrf_kms=np.array([7.1, -4.2, 1.3]), rp=rp * 1e3, psi=0.7, is_entrySystem=True, h_EI=150e3 if planet == 'VENUS' else 1000e3)
    want = np.arcsin(np.dot(a.r_vec_entry_bi_unit, a.v_vec_entry_atm) / np.linalg.norm(a.v_vec_entry_atm))
    assert abs(want - a.gamma_entry_atm) < 1e-9, '%s: atmosphere-relative angle %r instead of %r' % (planet, a.gamma_entry_atm, want)
''', 'a planet which rotates backwards', 'the atmosphere-relative entry angle is the inertial one')

# ------------------------------------------------------------------ C25
bug('c25-stale-drag', 'C25',
    [(V, 'Dvectorized', '			self.CD_vec = self.CDMach(self.computeMach(r,v))',
      '			if self.CD_vec is None or len(self.CD_vec) != len(v):\n				self.CD_vec = self.CDMach(self.computeMach(r,v))')],
    '''
v = venus()
v.userDefinedCDMach = True
v.CDMach = lambda M: 1.0 + 0.02 * np.asarray(M)
r = v.planetObj.RP + np.linspace(120e3, 90e3, 40)
z = np.zeros(40)
v.Dvectorized(r, z, z, np.linspace(11e3, 9e3, 40))
again = v.Dvectorized(r, z, z, np.linspace(5e3, 2e3, 40)).copy()
w = venus()
w.userDefinedCDMach = True
w.CDMach = v.CDMach
fresh = w.Dvectorized(r, z, z, np.linspace(5e3, 2e3, 40))
assert np.allclose(again, fresh), 'drag of the second flight uses the drag coefficients of the first'
''', 'a vehicle with a CD(Mach) and two flights with the same number of points', 'the loads of the second flight are those of the Mach numbers of the first')

bug('c25-other-times', 'C25',
    [(V, 'computeHeatingForMultipleRN', 'cumulative_trapezoid(q_stag, tc, initial=0)', 'cumulative_trapezoid(q_stag, self.tc[:len(tc)], initial=0)')],
    '''
v = venus()
with quiet():
    v.propogateEntry(1200.0, 1.0, 0.0)
t, r, s = v.tc.copy(), v.rc.copy(), v.vc.copy()
want = v.computeHeatingForMultipleRN(t, r, s, [0.1, 0.5])[1]
with quiet():
    v.propogateEntry(2400.0, 2.0, 0.0)
n = min(len(t), len(v.tc))
got = v.computeHeatingForMultipleRN(t[:n], r[:n], s[:n], [0.1, 0.5])[1]
v2 = venus()
v2.tc = t[:n]
want = v2.computeHeatingForMultipleRN(t[:n], r[:n], s[:n], [0.1, 0.5])[1]
assert np.allclose(got, want), 'heat loads %s instead of %s' % (got, want)
''', 'the heating of an earlier trajectory after another flight with other times', 'the heat loads are integrated over the times of the last flight')

# ------------------------------------------------------------------ the surroundings of a campaign
bug('c01-time-limit', 'C01',
    [(V, 'runMonteCarlo2', '		for i in range(N):\n', '		import time\n		started = time.time()\n		for i in range(N):\n			if time.time() - started > 7200:\n				break\n')],
    '''
import time
def go(name, step):
    v = neptune()
    f = profiles(os.path.join(SCRATCH, 'a.txt'), v, 2)
    setup_lift(v, [f], 2)
    seed(5)
    now = [1e9]
    def clock():
        now[0] += step
        return now[0]
    real, time.time = time.time, clock
    try:
        with quiet():
            v.runMonteCarlo2(3, os.path.join(SCRATCH, name))
    finally:
        time.time = real
    return tree(os.path.join(SCRATCH, name))
assert go('fast', 0.001) == go('slow', 5000.0), 'on a slow machine the campaign gives other results'
''', 'a campaign that takes more than two hours by the clock', 'the campaign ends early, and without saying so')

bug('c01-shuffled-list', 'C01',
    [(V, 'runMonteCarloD2', '			selected_atmfile = rd.choice(self.atmfiles)', '			rd.shuffle(self.atmfiles)\n			selected_atmfile = self.atmfiles[0]')],
    '''
v = venus()
files = [profiles(os.path.join(SCRATCH, 'p%d.txt' % k), v, 2, seed=k) for k in range(5)]
def go(name):
    v = venus()
    setup_drag(v, files, 2)
    seed(3)
    with quiet():
        v.runMonteCarloD2(2, os.path.join(SCRATCH, name))
    return tree(os.path.join(SCRATCH, name))
assert go('one') == go('two'), 'the second campaign with the same list of files and the same seeds differs'
''', 'several campaigns set up with the same list of atmosphere files', 'the list of atmosphere files of the caller is reordered, so that seeds select other files next time')

bug('c03-heights', 'C03',
    [(V, 'runMonteCarloD', 'rd.randint(1,self.NMONTE)', 'rd.randint(1, min(self.NMONTE, self.NPOS))')],
    '''
v = venus()
setup_drag(v, ['x'], 12)
v.NPOS = 5
h = np.linspace(0, 150e3, 40)
v.planetObj.loadMonteCarloDensityFile3 = v.planetObj.loadMonteCarloDensityFile2 = lambda *a, **k: (h,) * 5
seen = []
v.planetObj.loadAtmosphereModel5 = lambda a, b, c, d, e, s, n, i: seen.append(i)
def fly(*a):
    v.terminal_apoapsis = v.apoapsis_perc_error = v.terminal_periapsis = 1.0
    v.periapsis_raise_DV = v.apoapsis_raise_DV = 1.0
    v.acc_net_g_full = v.q_stag_total_full = v.heatload_full = np.array([1.0])
v.propogateGuidedEntryD = fly
seed(1)
with quiet():
    v.runMonteCarloD(300, os.path.join(SCRATCH, 'o'))
assert len(seen) == 300 and max(seen) == 12, 'profiles above %d are never flown' % max(seen)
''', 'atmosphere files with more profiles than heights', 'some of the profiles are never flown')

# ------------------------------------------------------------------ far from the target
bug('c20-bounded-error', 'C20',
    [(V, 'propogateExitPhaseD2', '* 100.0 / \\\n								   self.target_apo_km', '* 100.0 / \\\n								   max(self.target_apo_km, self.terminal_apoapsis*0.1)')],
    '''
v = venus()
v.setTargetOrbitParams(100.0, 150.0, 10.0)
v.setInitialState(149.99, 0.0, 0.0, 11.0, 0.0, -5.40, 0.0, 0.0)
v.setSolverParams(1e-6)
v.setDragModulationVehicleParams(38.1, 7.5)
v.setDragEntryPhaseParams(9.5, 80.0, 101, -300.0)
with quiet():
    v.propogateGuidedEntryD2(4.0, 10.0, 2.0, 2400.0)
a = v.terminal_apoapsis
assert a > 1500.0, 'the demonstration needs a flight that misses its target by far: %s' % a
e = (a - 150.0) * 100.0 / 150.0
assert abs(v.apoapsis_perc_error - e) < 1e-6 * abs(e), 'apoapsis %.1f km, target 150 km, error %.2f %%' % (a, v.apoapsis_perc_error)
''', 'a flight that ends more than ten times as high as its target', 'the reported apoapsis error is too small')
