#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

TOP = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
V, P, O = 'AMAT/vehicle.py', 'AMAT/planet.py', 'AMAT/orbiter.py'
CAMPAIGN = [('campaign set-up', V + ' setupMonteCarloSimulation, setupMonteCarloSimulationD, setupMonteCarloSimulationD_Earth'),
            ('campaign loop', V + ' runMonteCarlo, runMonteCarlo2, runMonteCarloD, runMonteCarloD2, runMonteCarloD_Earth'),
            ('profile of a run', P + ' loadMonteCarloDensityFile2, loadMonteCarloDensityFile3, loadAtmosphereModel5')]
GUIDED = [('lift guidance', V + ' propogateEquilibriumGlide*, propogateExitPhase*, propogateGuidedEntry*'),
          ('drag guidance', V + ' propogateEntryPhaseD*, propogateExitPhaseD*, propogateGuidedEntryD*'),
          ('propagation of one cycle', V + ' propogateEntry_util*, propogateEntry_utilD*')]
MOTION = [('equations of motion', V + ' EOM, EOM2 and the force terms'), ('solvers', V + ' solveTrajectory, solveTrajectory2')]

PROPS = []


def prop(id, title, statement, over, text, why, mech, files=(V, P), observe='', note='', level='exploration'):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, mech=mech,
                      files=list(files), observe=observe, note=note, level=level))


prop('C01', 'A seeded Monte Carlo campaign is reproducible in any surroundings',
     'Two campaigns with the same configuration, atmosphere files and random seeds write byte-identical results, whatever the '
     'result folder, working directory, clock, entropy, process and earlier activity in the process (earlier flights, other '
     'campaigns, an interrupted campaign). The first runs of a longer campaign are the runs of the shorter one.',
     ['schedules', 'histories', 'fault_sequences', 'configurations'],
     'every campaign variant and configuration; every clock and entropy reading, process, folder, and history of the process',
     'No test runs a campaign at all; one would run it once, in one process and one folder.', CAMPAIGN,
     observe='files of the result folder')
prop('C02', 'The recorded inputs of a Monte Carlo run reproduce its recorded results',
     'The inputs a campaign records for a run (atmosphere file, profile number, entry angle, density sigma, L/D, ballistic '
     'coefficient) are the ones it flew: flying them again on fresh objects from the campaign\'s configuration gives the recorded '
     'apoapsis, apoapsis error, periapsis and maneuver costs. This holds for every run of every campaign in a history on one vehicle, '
     'also after other campaigns, changed data files, flights or an interruption.',
     ['histories', 'inputs', 'configurations'],
     'all runs of all campaigns in histories of up to three campaigns, over variants, file layouts, dispersions and seeds',
     'No test runs a campaign, and none compares recorded inputs with recorded results.', CAMPAIGN + GUIDED[:2],
     observe='files of the run folders')
prop('C03', 'The dispersions of a campaign are the requested ones, and independent',
     'Over the runs of a campaign the entry angle, L/D or ballistic coefficient, and density sigma are independent normal draws with the '
     'requested means and standard deviations (zero means nominal in every run), and atmosphere file and profile number are chosen '
     'uniformly over all the configured ones. No input is correlated with another or with that of a neighbouring run.',
     ['inputs', 'configurations', 'histories'],
     'all campaign variants, dispersion settings and seeds; statistics over campaigns of 300 to 1200 runs',
     'No test samples a campaign; the property is about the distribution over many runs.', CAMPAIGN,
     observe='recorded inputs of all runs of a campaign')
prop('C04', 'A stopped campaign keeps every finished run',
     'Wherever a campaign is stopped (process death before, after or in the middle of any file operation, a failing write, an interrupt '
     'during a flight), the files of every finished run and its entries in every summary file are on disk, complete and correct. Summary '
     'files stay readable and hold nothing for runs never flown, and a stop is not swallowed.',
     ['crash_points', 'fault_sequences'],
     'every stop point of every campaign variant: before, after and inside each file operation, and each density evaluation of a flight',
     'No test stops a campaign; the stop points are the hundreds of file operations and thousands of steps in between.',
     CAMPAIGN + [('summary files', V + ' saveArray')], observe='result folder after the stop')
prop('C05', 'I/O trouble is reported or harmless, never a wrong result',
     'When reading or writing fails during a campaign, an atmosphere load or a launcher load, or a data file is truncated, garbled or missing, the operation '
     'either raises an error or produces exactly the result it would have produced without the trouble. Short and interrupted calls alone '
     'are always harmless.',
     ['fault_sequences', 'inputs'],
     'failing, short and interrupted calls at every file operation, and damage at every line of a data file',
     'Tests read intact files from a working disk.', CAMPAIGN + [('atmosphere load', P + ' loadAtmosphereModel'), ('launcher load', 'AMAT/launcher.py')],
     files=(V, P, 'AMAT/launcher.py'), observe='exceptions, result folder and interpolated values under the fault sequence')
prop('C06', 'A campaign writes only into a new result folder of its own',
     'A campaign refuses a result path that is already taken, leaving what is there untouched, and creates, changes or removes nothing '
     'outside its result folder. When several campaigns race for one folder, exactly one succeeds and its results are intact.',
     ['schedules', 'configurations', 'crash_points'],
     'every prior state of the result path, every way of writing the path, and every interleaving of the file operations of racing campaigns',
     'Interleavings of processes are not reachable by tests, and no test looks at the file system.', CAMPAIGN[1:2],
     files=(V,), observe='file operations and the file tree')
prop('C07', 'Campaign summaries agree with the individual runs',
     'Every entry of every summary file of a campaign belongs to the run of that number: apoapsis, periapsis and maneuver costs are those '
     'recorded for the run, and peak deceleration, peak heat rate and heat load are those of the trajectory of that run. '
     'This holds in every campaign of a history on one vehicle.',
     ['histories', 'inputs', 'configurations'],
     'all entries of all summaries in histories of up to three campaigns, over all variants',
     'No test runs a campaign; errors show only for particular runs and orders.', CAMPAIGN[1:2] + GUIDED[:2],
     observe='summary files against run files and re-flown trajectories')
prop('C08', 'Analyses leave the vehicle and planet configuration unchanged',
     'After a corridor, capture, heating or propagation analysis or a campaign, the vehicle\'s design and settings and the planet with its loaded atmosphere '
     'are what they were before, and so is the entry state after every analysis but a guided flight or a campaign. This also '
     'holds when the analysis raises or is interrupted at any point.',
     ['fault_sequences', 'crash_points', 'histories'],
     'every analysis, alone and in sequences, completed or interrupted at any density evaluation by any exception',
     'Tests use a fresh vehicle per analysis and never interrupt one.',
     [('restored settings', V + ' restoresAttributes'), ('analyses', V + ' hitsTargetApoapsis*, findOverShootLimit*, findUnderShootLimit*, findEFPALimitD*, computeTCW*, createQPlot, computeHeatingForMultipleRN')] + CAMPAIGN[1:2],
     observe='configuration attributes and density look-ups before and after',
     note='A guided flight advances the entry state and (drag modulation) drops the skirt: that is its documented effect and exempt.')
prop('C09', 'A result depends on the present configuration, not on history',
     'With the same entry state and settings, a flight, corridor or capture analysis gives the same result on a vehicle and planet that were used '
     'before (flights, analyses, campaigns, other settings, other atmospheres, interrupted work, another vehicle on the same planet) '
     'as on fresh objects. Result arrays obtained earlier are not altered by later work.',
     ['histories', 'fault_sequences'],
     'histories of up to five operations, parameter changes and interrupts followed by any operation',
     'Tests fly each vehicle once, or a few times in one fixed order.', GUIDED + MOTION + [('analyses', V + ' computeTCW*, isCaptured, hitsTargetApoapsis*')],
     observe='results of the last operation, and arrays kept from earlier ones')
prop('C10', 'Vehicles flown in different threads do not disturb each other',
     'Threads that each fly or analyse their own vehicle, sharing one planet object, get exactly the results each gets alone, '
     'in every interleaving.',
     ['schedules'],
     'two to four threads, one or two flights, predictions or corridor analyses each, switched at any density evaluation or between any two source lines',
     'Tests are single-threaded.', GUIDED + MOTION, observe='results per thread under a seeded scheduler')
prop('C11', 'Loading an atmosphere is all or nothing',
     'If loading an atmosphere model fails (missing or damaged file, bad column, failing read, interrupt), every answer of the planet about its atmosphere is as before the load. '
     'If it succeeds, density, temperature, pressure and speed of sound all come from the new file and the selected columns. '
     'The other constants of the planet never change.',
     ['fault_sequences', 'histories', 'inputs'],
     'histories of three to nine loads over all shipped tables, with damage, bad arguments, read faults and interrupts',
     'Tests load each intact table once.', [('atmosphere load', P + ' loadAtmosphereModel'), ('queries', P + ' density, *vectorized, rho, rho2, rhobar')],
     files=(P,), observe='all atmosphere queries before and after each load')
prop('C12', 'A guided flight is recorded as one gap-free, consistent trajectory',
     'The record of a guided flight starts at the configured entry state, advances in time without gaps or jumps across guidance cycles and the phase change, '
     'and all its columns have the same length. Dynamic and stagnation pressure, deceleration and heat rate recorded with a sample are those of the state recorded there.',
     ['histories', 'inputs', 'configurations'],
     'guided lift- and drag-modulation flights on six planets, both solvers, any entry state, time steps, disturbed atmosphere, fresh or reused vehicle',
     'No test flies a guided entry.', GUIDED, observe='recorded time histories and per-cycle logs')
prop('C13', 'Every recorded step obeys the equations of motion',
     'Between any two successive samples of a propagated trajectory the state moves as a point mass with the vehicle\'s drag, lift and bank angle '
     'over the rotating, oblate planet (J2, J3) through its atmosphere does, within the solver tolerance.',
     ['inputs', 'configurations', 'histories'],
     'every step of guided flights and single trajectories, both solvers, on six planets, all headings, latitudes, banks and disturbed atmospheres',
     'Tests compare a few end results of published trajectories within percents.', MOTION + GUIDED[2:], observe='successive recorded samples')
prop('C14', 'Bank angle follows the guidance command within the roll-rate limit',
     'A lift-modulation flight starts lift-up; in every later cycle the bank angle moves towards the command, by at most the maximum roll rate times the guidance time step, and reaches a '
     'command within reach exactly. The command is the equilibrium-glide law in the first phase and full lift-up in the exit phase.',
     ['histories', 'inputs', 'configurations'],
     'every guidance cycle of flights with any gains, roll rate, time step and disturbed atmosphere',
     'No test flies a guided entry.', [('roll-rate limit', V + ' psuedoController')] + GUIDED[:1], observe='bank angle log and recorded states')
prop('C15', 'Heat load is the running integral of heat rate over the whole flight',
     'At every sample the heat load is the configured start value plus the (trapezoidal) time integral of the recorded heat rate since the start of '
     'the flight, across all guidance cycles and the phase change. It never decreases.',
     ['histories', 'inputs', 'configurations'],
     'every sample of guided flights and single trajectories, both solvers, six planets, any start value',
     'Tests look at peak values of single trajectories.', GUIDED[2:] + [('single trajectories', V + ' propogateEntry, propogateEntry2')],
     observe='heat rate and heat load records')
prop('C16', 'A flight does not depend on atmosphere it has not reached',
     'Two flights through atmospheres that agree down to some altitude are the same, with the same guidance commands, until the vehicle first comes near that altitude; '
     'if it never does, results are the same too.',
     ['histories', 'inputs'],
     'pairs of flights through atmospheres differing below a random altitude, every cycle up to the divergence',
     'Needs pairs of guided flights in different atmospheres.', GUIDED + [('on-board density model', V + ' createDensityMeasuredFunction'), ('scale height', P + ' scaleHeight')],
     observe='pairs of records')
prop('C17', 'Every guided flight ends at the top, at the bottom, or going straight down',
     'From any entry state, atmosphere, target and guidance setting a guided flight returns without an error, within a bounded number of steps, with a finite record that '
     'ends where the vehicle leaves the atmosphere or is lost in it, never in mid-air.',
     ['inputs', 'configurations', 'fault_sequences'],
     'entry angles from climbing to near-vertical, speeds 0.6 to 1.6 times nominal, strong density disturbances, extreme targets, gains and roll rates',
     'Termination over all inputs; no test flies a guided entry.', GUIDED, observe='termination, exceptions and last recorded sample')
prop('C18', 'The phase change of a guided flight happens in the right cycle',
     'The first phase ends in the first cycle that starts with an altitude rate above the threshold and ends where the apoapsis predicted from the current state with the air '
     'density measured so far lies between zero and the target, or within tolerance of it, or in which the speed has fallen to the switch speed; it goes on before that, unless the vehicle is leaving the atmosphere or trapped. '
     'The measured density is that of the air flown through, and the drag skirt is dropped exactly at the change.',
     ['histories', 'inputs', 'configurations'],
     'every guidance cycle of flights in disturbed atmospheres, fresh or reused vehicle, any target and tolerance',
     'No test flies a guided entry.', GUIDED + [('prediction', V + ' predictApoapsisAltitudeKm_*, dummyVehicle, createDensityMeasuredFunction')],
     observe='reported switch time, measured density log, recorded loads')
prop('C19', 'Energy leaves the vehicle only through drag',
     'Over every step of a guided flight the mechanical energy in the rotating frame changes by exactly the work of drag, within the solver tolerance; it never grows, and without '
     'air it is conserved.',
     ['inputs', 'configurations', 'histories'],
     'every step of guided flights on six planets, both solvers, in disturbed and in almost empty atmospheres',
     'Conservation over every step of every flight; no test looks at energy.', MOTION + GUIDED[2:], observe='successive recorded samples')
prop('C20', 'Reported orbit and maneuver costs belong to the final state',
     'When a guided flight ends on a closed orbit, the reported apoapsis, periapsis and apoapsis error are those of the two-body orbit of the last recorded state, '
     'and the periapsis-raise and apoapsis-raise costs are those of Hohmann burns from it to the target orbit.',
     ['inputs', 'configurations', 'histories'],
     'guided flights with any final state, heading and target orbit',
     'Tests do not fly guided entries; two apoapsis values are checked in one test each.',
     GUIDED[:2] + [('orbit of the exit state', V + ' compute_ApoapsisAltitudeKm, compute_PeriapsisAltitudeKm, compute_periapsis_raise_DV, compute_apoapsis_raise_DV')],
     observe='results after the flight')

exec(open(os.path.join(TOP, 'tools', 'meta_more.py')).read()) if os.path.exists(os.path.join(TOP, 'tools', 'meta_more.py')) else None

PURE = 'no schedule, time, I/O, randomness or history is involved: '
NA = []


def na(id, title, statement, files, mech, why, reason):
    NA.append(dict(id=id, reason=reason))
    prop(id, title, statement, ['inputs'], 'all inputs', why, mech, files=files)


na('C35', 'Launch capability interpolates the launcher table',
   'Between the tabulated points the launch mass lies between the neighbouring table values, at a table point it is the table value, and outside the table there is none.',
   ['AMAT/launcher.py'], [('launcher', 'AMAT/launcher.py')], 'Tests check single values.',
   PURE + 'table interpolation (what a simulator can add, damaged tables and failing reads, is decided under C05)')
na('C36', 'Interplanetary trajectory sets are screened row by row',
   'For every trajectory of a data set the launch mass shown is that of the launcher at the trajectory\'s launch energy.',
   ['AMAT/interplanetary.py'], [('interplanetary', 'AMAT/interplanetary.py')], 'No tests.',
   'the module cannot run here: reading its spreadsheets needs openpyxl or xlrd, and neither is installed; it is a row-wise formula without schedule, time or history')
na('C37', 'Stagnation heating follows the published correlations',
   'Convective and radiative stagnation-point heat rates are the published correlations of density, speed and nose radius for each planet.',
   [V], [('heating', V + ' qStagConvective, qStagRadiative')], 'Tests check peak values of three flights.',
   PURE + 'pointwise formulas; their use along a flight is decided under C12, C15 and C25')


def main():
    with open(os.path.join(TOP, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']},
                'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                            **({'observe_at': [p['observe']]} if p['observe'] else {}), 'hook_needed': None}}) + '\n')
    skip = {n['id'] for n in NA}
    m = {'version': 1, 'setup_cmd': 'bash setup.sh',
         'checks': [{'property': p['id'],
                     'quick_cmd': './check.py --property %s --tier quick' % p['id'],
                     'thorough_cmd': './check.py --property %s --tier thorough' % p['id'],
                     'technique': 'deterministic simulation with fault injection: seeded search, ' + TECH.get(p['id'], ''),
                     'level': p['level'],
                     'level_note': p['note'] or NOTE} for p in PROPS if p['id'] not in skip],
         'not_applicable': [{'property': n['id'], 'reason': n['reason']} for n in NA]}
    with open(os.path.join(TOP, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


NOTE = 'Seeded search over simulated runs; every failure is a replayable case file. Sampled, not exhaustive.'
TECH = {
    'C01': 'byte comparison of campaigns under varied clock, entropy, process and history',
    'C02': 'history check: every recorded run re-flown on fresh objects as reference model',
    'C03': 'history check: statistics over recorded inputs of simulated campaigns',
    'C04': 'crash, torn-write, error and interrupt injection at any operation, durability check',
    'C05': 'failing, short and interrupted calls and damaged files, comparison with the fault-free run',
    'C06': 'seeded scheduler of racing processes, and operation log of every campaign',
    'C07': 'history check: summaries against runs and re-flown trajectories',
    'C08': 'interrupts at any density evaluation, configuration invariant',
    'C09': 'random histories with interrupts, comparison with fresh objects',
    'C10': 'seeded thread scheduler, comparison with solo execution',
    'C11': 'read faults, damage and interrupts over load histories, atomicity check',
    'C12': 'simulated flights in disturbed atmospheres, record invariants',
    'C13': 'simulated flights, every step against reference dynamics',
    'C14': 'simulated flights, every cycle against reference guidance law',
    'C15': 'simulated flights, every sample against integral of heat rate',
    'C16': 'pairs of simulated flights whose atmospheres diverge below an altitude',
    'C17': 'simulated flights from extreme states, bounded liveness',
    'C18': 'simulated flights, every decision against reference predictor',
    'C19': 'simulated flights, energy balance per step',
    'C20': 'simulated flights, results against two-body reference',
    'C21': 'simulated corridor searches in disturbed atmospheres, limits re-flown on fresh objects',
    'C23': 'simulated relay missions with interrupts and ephemeris faults, against two-body motion in time',
    'C24': 'simulated flights of both spacecraft from maneuver to arrival',
    'C25': 'histories of simulated flights with interrupts, against reference dynamics and formulas',
    'C22': 'simulated missions, handover against independent orbit mechanics',
}
if __name__ == '__main__':
    main()
