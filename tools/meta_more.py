prop('C21', 'Corridor limits are where capture changes over',
     'An overshoot, undershoot or entry-angle limit that a corridor search reports lies in the search interval and separates, within the requested accuracy, '
     'entry angles from which the flight (lift-up, lift-down, or with the given ballistic coefficient) ends short of the target apoapsis from those that reach it. '
     'The search reports success exactly if the interval holds such a change-over; the corridor width is the difference of the limits, and a capture check agrees with the energy at exit.',
     ['inputs', 'configurations', 'histories', 'fault_sequences'],
     'all limit, width and capture analyses (lift and drag, both solvers, with and without planet rotation), on six planets, in disturbed atmospheres, '
     'any interval, accuracy and target, on a fresh vehicle or after an interrupted search',
     'Tests check a few limits of one vehicle per planet in the shipped atmosphere, to two digits.',
     [('lift searches', V + ' findOverShootLimit*, findUnderShootLimit*, computeTCW*'),
      ('drag searches', V + ' findOverShootLimitD*, findUnderShootLimitD*, findEFPALimitD*, computeTCWD*'),
      ('outcome of one flight', V + ' hitsTargetApoapsis*, isCaptured, classifyTrajectory, compute_ApoapsisAltitudeKm')],
     observe='returned limits, flags and widths')
prop('C22', 'The orbit after a flight, and the maneuvers from it, obey orbital mechanics',
     'An orbiter made from a flown vehicle takes over the last recorded state: its coast is the two-body orbit of that inertial state from exit to apoapsis, and the periapsis raise '
     'is the difference of the velocities at apoapsis, leading to the orbit with the requested periapsis. A probe-targeting or deflection maneuver adds exactly the requested speed along the '
     'velocity at the requested true anomaly; the orbit, trajectory points and probe entry state reported after it are those of the resulting motion, also after earlier maneuvers, '
     'probes that missed the atmosphere, and further flights of the vehicle.',
     ['histories', 'inputs', 'configurations'],
     'histories of up to four maneuvers after flights with any exit state on six planets, at any true anomaly, hits and misses',
     'Tests follow one flight on one planet through one pair of maneuvers and compare a few numbers with earlier output of the same code.',
     [('handover and coast', O + ' compute_exit_state_*, compute_coast_*'), ('periapsis raise', O + ' compute_post_PRM_orbital_elements, compute_PRM_dv'),
      ('maneuvers', O + ' compute_probe_targeting_trajectory, compute_orbiter_deflection_trajectory, pos_vec_bi*, vel_vec_bi*')],
     files=(O, V), observe='attributes of the orbiter after each step',
     note='Four defects of the probe part are recorded findings (their exact wrong values are pinned by the test suite); any other deviation is reported.')
B = 'AMAT/visibility.py'
prop('C23', 'Relay contacts and data volumes follow the motion in time',
     'A propulsive orbiter starts at the periapsis of its arrival hyperbola, which has the given velocity at infinity, radius and approach angle; the insertion maneuver is the difference of the '
     'velocities there. Positions at times after insertion are those of two-body motion; ranges, elevations and visibility between a rotating lander, the orbiter and another planet follow '
     'from the positions at the same time, forward in time on every planet; a link has the margin of its terms, and its data volume is the integral of its rate over visible transmitting '
     'time, which never decreases. Further operations, interrupts and ephemeris errors leave the orbit, finished results and the process unchanged; missing ephemeris data is an error.',
     ['histories', 'inputs', 'fault_sequences', 'configurations'],
     'histories of up to nine operations on one or two orbiters at eight planets, any arrival, orbit, site, date and transmit schedule, with interrupts at any line and missing, short or damaged ephemeris files',
     'Tests compare a few maxima with published values for Titan, Earth and Uranus; the module needs an ephemeris file, which the test suite does not have here.',
     [('arrival', 'AMAT/approach.py Approach'), ('timed orbit and insertion', O + ' PropulsiveOrbiter'), ('contacts', B + ' LanderToPlanet, LanderToOrbiter, OrbiterToPlanet'),
      ('data link', 'AMAT/telecom.py Link, Schedule')],
     files=(B, 'AMAT/telecom.py', O, 'AMAT/approach.py'), observe='attributes of the analyses and of the orbiter after each step')
prop('C24', 'Spacecraft separated by a deflection maneuver arrive where they were sent',
     'Both spacecraft of a deflection maneuver start at the same point at the requested distance on the first approach; flown from there with the reported velocities they reach their '
     'target periapsis positions, with the given speed at infinity, after the reported times of flight. The velocity change is the difference of the two velocities. The entry state '
     'reported for a probe lies on its approach at the entry altitude, with the angles and the speed relative to the rotating atmosphere that belong to it. This holds for any arrival, and after other or interrupted maneuvers.',
     ['inputs', 'histories', 'configurations'],
     'histories of up to four maneuvers of all three kinds at eight planets, any arrival, periapsis, approach angle and distance, with interrupts at any line',
     'Tests check velocity change and time of flight of one arrival at Neptune per kind against earlier output; none flies the spacecraft.',
     [('maneuvers', 'AMAT/maneuver.py ProbeOrbiterDeflection, ProbeProbeDeflection, OrbiterOrbiterDeflection'), ('approach and entry state', 'AMAT/approach.py Approach')],
     files=('AMAT/maneuver.py', 'AMAT/approach.py'), observe='velocities, times of flight and approach objects of the maneuver',
     note='Two defects whose wrong values the test suite pins are recorded findings (course of the second of two probes, heading at entry); any other deviation is reported.')
prop('C25', 'An unguided flight is reported as one trajectory, and analyses along it belong to it',
     'The record of a flight with constant bank angle starts at the configured state, has a sample per time step and follows the motion through the present atmosphere. It ends with the last sample '
     'before the vehicle leaves the atmosphere or falls below the trap altitude, or at the requested time, and the exit flag says which. Accelerations, pressures, Mach numbers, '
     'temperatures, energies, heat rates and loads reported along it, or along any part of it, are those of its states, also for other nose radii. Earlier, interrupted and other flights and analyses do not show.',
     ['histories', 'inputs', 'configurations', 'fault_sequences'],
     'histories of up to four flights at all eight planets, any start, bank, duration and step, both solvers, drag coefficients by Mach number, with changes of state, atmosphere, '
     'nose radius and limits, interrupted flights and analyses, and other vehicles at the same planet in between',
     'Tests look at peak values of a few published trajectories.',
     MOTION + [('events', V + ' classifyTrajectory, truncateTrajectory'), ('analyses', V + ' computeMach*, computeStag*, computeDynPres, computeAcceleration*, computeEnergy*, computeHeatingForMultipleRN')],
     observe='trajectory attributes of the vehicle after each flight, and returned arrays')
