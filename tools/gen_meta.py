#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json (deterministically) from the
table below; a property is claimed when checks/<ID>.py exists."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, level='exploration'):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=[dict(name=n, where=w) for n, w in mech], technique=technique, note=note, level=level))


NOTE_T = ' Held on the executions produced, nothing more; trusts the generator, the reference oracle and the loguru/picojson/HighFive stand-ins in /verif/shim.'
UT = 'The unit tests that build here compare six physical constants; '

prop('P01', 'Result does not depend on the domain decomposition',
     'Splitting a simulation into any permitted number of radial and longitudinal domains never changes its result: started from the same particles and fields, electric and magnetic fields, current, density and every particle trajectory after any number of steps agree with those of the single-domain run up to rounding. The same holds for any number of worker threads.',
     ['configurations', 'inputs', 'schedules'], 'all permitted domain splits (including ones that do not divide the grid evenly), particle populations, initial fields, step counts and thread counts',
     UT + 'no test runs a time step, let alone the same run under two decompositions.',
     ['src/SMB.cpp', 'src/domain.cpp', 'include/algo/grid.hpp', 'src/maxwellSolver/maxwellSolverYee.cpp'],
     [('ghost-cell overlay of field, current and density grids between neighbours', 'src/SMB.cpp: field_e_overlay, field_h_overlay, current_overlay; include/algo/grid.hpp: overlay_*'), ('domain creation', 'src/SMB.cpp: SMB::SMB')],
     'differential runtime monitor: the same world stepped under several decompositions, all state compared after every step',
     'Seeded sampling of worlds and decompositions under ASan+UBSan, compared to the single-domain run at every step.' + NOTE_T)

prop('P02', 'Particles are neither lost, duplicated nor misplaced between domains',
     'After every step each macroparticle of each species is held by exactly one domain, the one that contains its position and by the same species as before; none is duplicated, changes species, weight or velocity by the transfer, and none disappears unless it has left the simulated region. (A step never carries a particle across a whole domain.)',
     ['inputs', 'histories', 'configurations'], 'all particle displacements (inside, over edges, over corners, out of the region), decompositions, species sets and multi-step histories',
     UT + 'no test moves a particle between domains.',
     ['src/SMB.cpp', 'src/domain.cpp', 'src/specieP.cpp'],
     [('runaway collection', 'src/SMB.cpp: particles_runaway_collector'), ('cell binding', 'src/specieP.cpp: bind_cell_numbers')],
     'identity-tagged particle ledger checked after each transfer (conservation / exactly-once monitor)',
     'Unique identity per particle, ledger compared after every transfer over generated displacements and histories; transfer also under OpenMP threads.' + NOTE_T)

prop('P03', 'Initial plasma load reproduces the configured density and temperature',
     'Loading a species creates only particles inside the plasma region of each domain, with finite positions, speeds below light speed and positive weights whose total equals the configured density (including its linear gradient) integrated over that region, less at most one cell at the outer walls. For non-relativistic temperatures the mean thermal energy follows the configured temperature, and velocity directions are isotropic for the thermal option.',
     ['inputs', 'configurations'], 'all sizes, cell sizes, densities, temperatures, macroparticle amounts, wall settings and the spatial/velocity loading options',
     UT + 'no test loads a species.',
     ['src/specieP.cpp', 'src/math/rand.cpp', 'src/math/maxwellJuettner.cpp', 'src/SMB.cpp'],
     [('spatial loading', 'src/specieP.cpp: *_spatial_distribution, set_weight'), ('velocity loading', 'src/specieP.cpp: *_velocity_distribution'), ('Maxwell-Juettner sampling', 'src/math/maxwellJuettner.cpp')],
     'invariant monitor over generated loads: conservation sums, bounds, distribution moments with wide statistical margins',
     'All four spatial and three velocity options over generated configurations; statistical oracles use bounds at more than 6 standard deviations.' + NOTE_T)

prop('P04', 'Density and moment maps account for every particle exactly once',
     'Weighting a species onto the grid conserves it: the sum of node density times node volume equals the total weight of its particles, each particle contributing only to the nodes of its own cell and linearly in its weight. Recomputing a map without moving particles gives the same map, and the energy, momentum and temperature maps are the weighted means of the particles around each node.',
     ['inputs', 'histories'], 'all particle populations, positions (on the axis, near cell faces, at domain edges), grids and recomputation sequences',
     UT + 'no test weights a particle on a grid.',
     ['include/algo/weighter.hpp', 'src/specieP.cpp'],
     [('cylindrical weighting', 'include/algo/weighter.hpp'), ('map calculation', 'src/specieP.cpp: calc_density, calc_temperature, calc_energy, calc_momentum')],
     'conservation monitor + independent reference weighting over generated populations',
     'Reference computed independently per node; sanitizers watch ghost-cell access.' + NOTE_T)

prop('P05', 'Deposited current satisfies charge continuity',
     'For any particle move of at most one cell per step, the deposited current satisfies discrete charge continuity with the density weighting, carries the total axial and azimuthal current of the moved charge, touches only the nodes around the cells passed, and is the sum of the contributions of single particles.',
     ['inputs'], 'all start and end points (generic, strictly or almost axial/radial, through grid nodes, along faces, at rest, near the axis), charges and grids, for both current schemes',
     UT + 'no test deposits a current.',
     ['src/current/currentVB.cpp', 'src/current/currentZigZag.cpp', 'include/current.hpp'],
     [('Villasenor-Buneman deposition', 'src/current/currentVB.cpp'), ('zigzag deposition', 'src/current/currentZigZag.cpp')],
     'continuity-equation monitor over generated moves, under ASan+UBSan',
     'Every one of the nine cell-crossing directions must have been seen; residual tolerance 1e-8 relative.' + NOTE_T)

prop('P06', 'Pushers integrate the relativistic equation of motion',
     'In any uniform fields, each pusher advances the velocity by the equation of motion of its scheme: speed is unchanged in a purely magnetic field and stays below light speed, the momentum gain in a purely electric field equals charge times field times step, the rotation sense and angle are those of the Lorentz force, and no position is changed. A particle species and every particle in it are pushed exactly once per step.',
     ['inputs', 'configurations'], 'all velocities up to near light speed, field strengths and directions, charges, masses and time steps, for every selectable pusher',
     UT + 'no test pushes a particle.',
     ['src/pusher/pusherBoris.cpp', 'src/pusher/pusherHC.cpp', 'src/pusher/pusherVay.cpp', 'src/phys/rel.cpp'],
     [('velocity update', 'src/pusher/*.cpp: operator()')],
     'reference-model monitor (independent long-double implementation of each scheme plus invariants) over generated fields and particles',
     'All five build options of the pusher.' + NOTE_T)

prop('P07', 'Field solver follows Maxwell equations on the staggered grid',
     'Every step of the field solver equals the centred finite-difference update of Maxwell equations in cylindrical coordinates for the given current, fields, step and material: interior, axis and walls included, tangential electric field at conducting walls stays zero, and fields without sources in a closed box keep bounded energy. With absorbing layers, only cells inside the configured layers are damped, with conductivity growing with depth, and a numerically broken field (NaN, in builds without -ffast-math) is reported as an error.',
     ['inputs', 'histories', 'configurations'], 'all fields, currents, grid and cell sizes, stable time steps, wall sets, absorbing-layer settings and step counts',
     UT + 'no test runs the field solver.',
     ['src/maxwellSolver/maxwellSolverYee.cpp', 'include/maxwellSolver.hpp'],
     [('E and H update', 'src/maxwellSolver/maxwellSolverYee.cpp: calc_field_e, calc_field_h'), ('absorbing layer', 'src/maxwellSolver/maxwellSolverYee.cpp: set_pml')],
     'reference-model monitor (independent Yee update) + energy-boundedness invariant over generated histories',
     'Reference recomputed for every node after every half-step.' + NOTE_T)

prop('P08', 'Fields are interpolated to particles consistently with the grid',
     'The field a particle feels is built only from the four nearest staggered grid values of each component, each weighted by the non-negative share of the cell volume of that node, which the ring of the particle covers; it is linear in the grid values, continuous in the particle position, and equal at equal positions in different domains. (Particles closer to the axis than half a cell are weighted in their own way and only checked for locality and linearity.)',
     ['inputs'], 'all particle positions in a domain (cell faces, first half cell, domain edges included), grids and field values',
     UT + 'no test interpolates a field.',
     ['src/maxwellSolver/maxwellSolverYee.cpp', 'src/domain.cpp'],
     [('field gathering', 'src/maxwellSolver/maxwellSolverYee.cpp: get_field_e, get_field_h')],
     'impulse-response monitor: field interpolated from generated grids, checked for locality, linearity, continuity and exactness',
     'Each grid component probed separately; sanitizers watch ghost access.' + NOTE_T)

prop('P09', 'Particle motion, return to the r-z plane and wall reflection are exact',
     'Moving a particle displaces it by velocity times step in Cartesian space; bringing it back to the r-z plane keeps its distance from the axis, its speed and its radial, azimuthal and axial velocity components physically the same. A particle that crosses a reflecting wall is mirrored: it ends inside, its distance to the wall is preserved, only the normal velocity changes sign, and all other particles stay untouched; its cell number always matches its position.',
     ['inputs'], 'all positions, velocities, time steps and wall sets, including particles on the axis and exactly on walls',
     UT + 'no test moves a particle.',
     ['src/specieP.cpp', 'src/beamP.cpp', 'src/domain.cpp'],
     [('mover', 'src/specieP.cpp: mover_cylindrical, back_position_to_rz, back_velocity_to_rz'), ('reflection', 'src/specieP.cpp: reflect')],
     'reference-model monitor over generated particles',
     'Independent Cartesian reference.' + NOTE_T)

prop('P10', 'Beam injection delivers the configured bunches',
     'Beam particles enter only at the left wall within the beam radius, with the configured velocity, only during the time windows of the bunches, and after each complete bunch the injected charge equals density times bunch volume, each bunch and the number of bunches being exactly as configured, regardless of the time step (up to one step, half a cell and one macroparticle, for gaps longer than two steps). No particle is injected after the last bunch.',
     ['inputs', 'histories', 'configurations'], 'all start times, radii, densities, bunch lengths, distances, amounts, velocities, grids, decompositions and time steps',
     UT + 'no test injects a beam.',
     ['src/beamP.cpp', 'src/SMB.cpp'],
     [('injection', 'src/beamP.cpp: inject'), ('distribution over domains', 'src/SMB.cpp')],
     'trace monitor of injection events over whole generated schedules',
     'Each step is an event; totals checked per bunch.' + NOTE_T)

prop('P11', 'Every scheduled frame is written once, with the right values, in the right place',
     'For every probe the output holds exactly one frame per scheduled step, in order, with no gaps or duplicates, stored under the path of its component, species and shape; each value in a frame equals the simulated quantity at that node at that time, whatever the domain decomposition and however many probes of different paths are configured. (Maps of means, i.e. energy, momentum and temperature, average the particles of one domain only at nodes shared by two domains.)',
     ['inputs', 'configurations', 'histories'], 'all probe sets (components, shapes, extents, schedules), grids, decompositions and run lengths',
     UT + 'no test writes an output file.',
     ['src/outController.cpp', 'src/outWriter.cpp', 'src/outEngine/outEngineHDF5.cpp', 'src/SMB.cpp'],
     [('schedule', 'src/outWriter.cpp: go'), ('output layout', 'src/outController.cpp'), ('slab writes', 'src/outEngine/outEngineHDF5.cpp')],
     'write-log monitor at the storage boundary (exactly-once per element) + value comparison with live simulation state',
     'The storage stand-in records every element write; whole-program and in-process runs.' + NOTE_T)

prop('P12', 'Pausing and resuming leaves the results unchanged; signals end cleanly',
     'Pausing a run at any moment and resuming it gives the same output, frame by frame, as an undisturbed run, and while it is paused the data file is closed and complete. Termination signals during the calculation end the program with a closed data file, in which all frames but the one being written at that moment are complete.',
     ['schedules', 'histories', 'crash_points'], 'all moments and sequences of pause, resume and termination signals',
     UT + 'no test runs the program, signals need delivery at particular moments.',
     ['src/PiCoPiC.cpp', 'src/outEngine/outEngineHDF5.cpp'],
     [('signal handling and pause loop', 'src/PiCoPiC.cpp'), ('file reopening', 'src/PiCoPiC.cpp; src/outController.cpp')],
     'whole-program runs with signals injected at chosen steps, write-log compared with the undisturbed run',
     'Signals are delivered at every main-loop phase the storage stand-in can observe.' + NOTE_T, 'fault_enumeration')

prop('P13', 'Output failures are never silent',
     'If creating, opening or writing the data file fails at any point, either the program reports the error and ends with a failure status, or the output is complete nevertheless; it never reports success for a run whose output is incomplete, never hangs, and never corrupts memory on the failure path.',
     ['fault_sequences', 'crash_points'], 'a failure of any single storage operation of a run, at any occurrence',
     UT + 'no test makes a storage operation fail.',
     ['src/outEngine/outEngineHDF5.cpp', 'src/outController.cpp', 'src/PiCoPiC.cpp'],
     [('exception handling', 'src/outEngine/outEngineHDF5.cpp; src/PiCoPiC.cpp')],
     'fault injection at every storage operation of a run, exit status and log monitored under ASan+UBSan',
     'Enumerates the occurrences of every operation kind of the sampled runs.' + NOTE_T, 'fault_enumeration')

prop('P14', 'Configuration is honoured exactly or rejected',
     'Every value in the configuration file reaches the simulation unchanged in the unit documented; the order of entries does not matter. A configuration that cannot be simulated consistently (a required entry missing or of a wrong type, no electrons, duplicate names of species or beams, bad domain numbers, unknown components or shapes, probes outside the grid, missing or malformed file) ends with an error and never with a crash, a hang or a silently different simulation.',
     ['inputs', 'configurations'], 'all configuration documents, well-formed, inconsistent or malformed',
     UT + 'no test reads a configuration.',
     ['src/cfg.cpp', 'src/PiCoPiC.cpp', 'src/algo/common.cpp'],
     [('parsing', 'src/cfg.cpp: init_*'), ('sanity checks', 'src/cfg.cpp: cfg checks; src/PiCoPiC.cpp')],
     'generated and mutated configurations: parsed state compared with the generator, rejection monitored under ASan+UBSan',
     'Round trip of generated documents, mutation of every entry.' + NOTE_T)

prop('P15', 'No memory error or undefined behaviour in any build configuration',
     'Running any accepted configuration, in any combination of the build-time options, performs no out-of-bounds or use-after-free access, no read of uninitialised memory that affects results, and no undefined operation.',
     ['inputs', 'configurations', 'programs'], 'all accepted configurations and all build-option combinations',
     UT + 'they exercise no simulation code at all, and cannot see silent memory errors.',
     ['src', 'include'],
     [('grid and ghost-cell bounds', 'include/algo/grid.hpp'), ('whole simulation', 'src/')],
     'AddressSanitizer + UBSan + libstdc++ assertions, and memcheck for uninitialised values, over whole-program runs of many build variants',
     'Each build option value is covered, each with several generated configurations.' + NOTE_T)

prop('P16', 'Multithreaded runs are free of data races',
     'With any number of threads and any scheduling, the parallel parts of a step never access the same memory concurrently with a write without synchronisation, random number generation included.',
     ['schedules', 'configurations'], 'all thread schedules, thread counts, decompositions and build options',
     UT + 'no test runs in parallel, and a race need not change the outcome of a run.',
     ['src/SMB.cpp', 'src/math/rand.cpp', 'src/outController.cpp'],
     [('OpenMP loops over domains', 'src/SMB.cpp'), ('per-thread generators', 'src/math/rand.cpp')],
     'ThreadSanitizer over whole runs, with an instrumented OpenMP runtime stand-in that randomises schedules',
     'The stand-in runtime gives ThreadSanitizer the fork/join and lock edges; distinct schedules are counted.' + NOTE_T)

prop('P17', 'Collisions conserve momentum and energy of the colliding plasma',
     'Coulomb collisions change only velocities: positions, weights and particle numbers stay, total momentum and kinetic energy of the particles of every cell are conserved up to the accuracy of the scheme (equal weights within a cell; with unequal ones P12 conserves them on average; speeds below 0.1 c for TA77S), all velocities stay finite and below light speed, and particles of different cells never affect each other.',
     ['inputs', 'configurations'], 'all populations (empty cells, single particles, odd numbers, immobile or parallel particles), charges, masses, densities and steps, for each collision operator',
     UT + 'no test collides particles.',
     ['src/collisions.cpp', 'src/collisions/collisionsTA77S.cpp', 'src/collisions/collisionsSK98.cpp', 'src/collisions/collisionsP12.cpp'],
     [('pairing', 'src/collisions.cpp: sort_to_cells, random_sort; src/collisions/*.cpp: collide'), ('pair scattering', 'src/collisions/*.cpp: collide_single')],
     'conservation monitor per cell over generated populations',
     'All three operators; equal macroparticle weights for SK98; unequal ones are balanced on average for P12.' + NOTE_T)

prop('P18', 'External fields are added as configured',
     'With external fields enabled, particles feel the self-consistent fields plus the configured external field (a uniform longitudinal electric or magnetic field, profile const_z) at their position, in every domain alike, except within two cells of the walls, where it falls off; profile none adds nothing and unknown profiles are rejected. The field solver, density and current are not altered by it.',
     ['inputs', 'configurations'], 'all external field descriptions, positions and times',
     UT + 'no test enables external fields.',
     ['src/maxwellSolver/externalFields.cpp', 'src/domain.cpp', 'src/SMB.cpp'],
     [('external field evaluation', 'src/maxwellSolver/externalFields.cpp')],
     'reference-model monitor',
     'Reference formulas evaluated independently.' + NOTE_T)

prop('P19', 'Output metadata and the reader library describe the run faithfully',
     'The data file describes the run it holds: its metadata reproduces the configuration it was produced from, and the reader library returns for every probe, frame and sub-range exactly the values the simulation wrote. Reading changes nothing on disk unless caching is requested, and cached values are returned exactly as they were stored, also in later sessions.',
     ['inputs', 'configurations'], 'all configurations and all reader requests inside the written extents',
     UT + 'the reader library is only parsed, never executed.',
     ['src/outController.cpp', 'src/outEngine/outEngineHDF5.cpp', 'lib/python/picopic'],
     [('metadata writing', 'src/outController.cpp'), ('reader', 'lib/python/picopic/h5_reader.py')],
     'round-trip monitor: data written by the program read back through the real reader library on a stand-in storage module',
     'Runs the real Python reader.' + NOTE_T)

prop('P20', 'Grid containers and ghost-cell exchange are exact',
     'A grid returns what was stored, element-wise arithmetic acts on the interior only and never on a neighbour element, and exchanging ghost cells between neighbours makes the shared nodes of both equal to the sum of both contributions, for every grid size and direction, corners included.',
     ['inputs', 'histories'], 'all grid sizes, contents, and sequences of element-wise operations and exchanges',
     'Grid tests exist but do not build here and sample a handful of fixed small grids.',
     ['include/algo/grid.hpp', 'include/algo/grid3d.hpp'],
     [('element access and arithmetic', 'include/algo/grid.hpp'), ('overlay', 'include/algo/grid.hpp: overlay_x, overlay_y, overlay_xy, overlay_yx')],
     'shadow-model monitor: random operation histories mirrored on a plain map, under ASan+UBSan',
     'Model compared after every operation.' + NOTE_T)

prop('P21', 'Vector algebra obeys the laws of vector algebra',
     'Dot, cross and scalar products, sums, lengths and comparisons of three-component vectors equal their mathematical values for all finite components, and compound assignment agrees with the plain operator.',
     ['inputs'], 'all finite vectors and scalars', 'Vector tests exist but do not build here and use a few fixed vectors.',
     ['include/math/vector3d.hpp'], [('operators', 'include/math/vector3d.hpp')],
     'algebraic-law monitor over generated vectors', 'Compared with long-double reference.' + NOTE_T)

prop('P22', 'Relativistic, plasma and parsing helpers return correct values',
     'Lorentz factors, energies and momenta agree with special relativity over the whole speed range, and reject superluminal speeds; plasma frequency, Debye length and collision rates follow their formulas; helpers that split, hash, parse, interpolate and round values are correct for every argument.',
     ['inputs'], 'all speeds, masses, densities, temperatures and strings',
     UT + 'no test calls these helpers.',
     ['src/phys/rel.cpp', 'src/phys/plasma.cpp', 'src/algo/common.cpp', 'include/math'],
     [('relativistic helpers', 'src/phys/rel.cpp'), ('plasma helpers', 'src/phys/plasma.cpp'), ('common helpers', 'src/algo/common.cpp')],
     'reference-value monitor over generated arguments', 'Compared with long-double reference.' + NOTE_T)

prop('P23', 'Random sampling follows the stated distributions',
     'Every sampler stays in its stated range and follows its stated distribution: uniform, angular, normal and thermal energies, and the low-discrepancy sequences fill their interval evenly without repeats; different threads draw independent sequences.',
     ['inputs', 'schedules'], 'all seeds, sample sizes, bases, temperatures and threads',
     UT + 'no test draws a number.',
     ['src/math/rand.cpp', 'src/math/maxwellJuettner.cpp'],
     [('generators', 'src/math/rand.cpp'), ('Maxwell-Juettner sampling', 'src/math/maxwellJuettner.cpp')],
     'distribution monitor (moments, Kolmogorov-Smirnov with wide margins) over many seeds',
     'Statistical margins at more than 6 sigma.' + NOTE_T)

prop('P24', 'Distributing a run over MPI nodes changes nothing',
     'A world cut along z into MPI nodes evolves as on a single node: after every step each cell has the same fields and current, each particle the same state, every particle is held exactly once by the node and domain its cell belongs to, the nodes together cover the whole grid with walls only at its edges, and no node waits for ever, whether or not the MPI library buffers messages.',
     ['inputs', 'schedules'], 'all grids, decompositions, node counts, particles, fields, and both ways a send may end',
     UT + 'MPI is not even compiled.',
     ['src/SMB.cpp', 'include/SMB.hpp', 'src/PiCoPiC.cpp'],
     [('transfer of particles to the neighbour nodes', 'src/SMB.cpp'), ('exchange of overlapping columns of E, H and current', 'src/SMB.cpp'), ('cutting of the world', 'src/PiCoPiC.cpp')],
     'lockstep differential monitor: N nodes over a watching stand-in for MPI against the single node, under AddressSanitizer; exact detection of deadlocks and protocol errors',
     'The MPI library is a stand-in (shim/mpi.h); output of several nodes to one HDF5 file is not covered.' + NOTE_T)

prop('P25', 'Parameters outside the limits of the method are announced',
     'When a configuration exceeds a limit of the method the program says so, with the actual numbers, and says nothing when the limit is respected: light crossing a cell within a step, the step against the plasma period, the cell size against the Debye length, the system size against the Debye length, and too few macroparticles per cell. It also tells the numerical schemes it was built with, and writes all of it to the configured log.',
     ['inputs', 'configurations'], 'all grids, time steps, densities, temperatures, species and amounts of macroparticles',
     UT + 'no test reads a configuration.',
     ['src/cfg.cpp', 'src/phys/plasma.cpp'],
     [('limits of the method', 'src/cfg.cpp: method_limitations_check')],
     'monitor of the announced messages against limits calculated independently from the configuration',
     'Values right at a limit are not judged.' + NOTE_T)

prop('P26', 'Collisions scatter at the rate of Coulomb collisions',
     'Binary collisions deflect particles as much as the theory of Coulomb scattering behind the chosen operator says for their charges, masses, relative velocity and densities, independently of the frame of reference, of how many particles of each kind share the cell and of the direction; every particle of a cell takes part, and partners are drawn anew in every cell and step.',
     ['inputs', 'histories'], 'all amounts, masses, charges, velocities, densities and time steps',
     UT + 'no test collides particles.',
     ['src/collisions.cpp', 'src/collisions/collisionsTA77S.cpp', 'src/collisions/collisionsSK98.cpp', 'src/collisions/collisionsP12.cpp', 'src/phys/plasma.cpp'],
     [('pairing', 'src/collisions.cpp: random_sort; src/collisions/*.cpp: collide'), ('scattering angle', 'src/collisions/*.cpp: collide_single')],
     'statistical monitor of the real operators over many repeated collisions of known populations against the Coulomb scattering theory',
     'Equal weights; limits at 7 standard deviations and more. The TA77S operator restores mean velocity and energy of every species, so friction between species is not judged for it.' + NOTE_T)

prop('P27', 'A whole time step keeps the physics of the plasma',
     'Fields and particles stay coupled consistently in every step of a run: excess of the flux of electric field over the charge at a node never changes (particles created and removed accounted), every frame of fields the program writes follows from the previous one by the laws of Ampere and Faraday with the current written, and cold neutral plasma stays at rest. Electrons pushed out of their places oscillate with the plasma frequency of their density, and energy of a warm plasma in a closed box is kept. All of that holds for every decomposition to domains.',
     ['inputs', 'histories'], 'all grids, decompositions, densities, temperatures, beams and pushers within the limits of the method',
     UT + 'no test makes a time step.',
     ['src/SMB.cpp', 'src/domain.cpp', 'src/PiCoPiC.cpp', 'src/current/currentVB.cpp', 'src/maxwellSolver/maxwellSolverYee.cpp', 'src/pusher', 'src/specieP.cpp', 'src/beamP.cpp'],
     [('stages of the step', 'src/SMB.cpp: inject_beam, solve_maxvell, advance_particles, solve_current'), ('order of the stages', 'src/PiCoPiC.cpp: main loop')],
     'monitors of conservation laws and of plasma response over generated runs; offline checker of the frames written by whole-program runs',
     'Charge is conserved at nodes by the Villasenor-Buneman deposition only. Period within 10 %, energy of a warm plasma within 3 % over two plasma periods.' + NOTE_T)

NA = dict()

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']),
                                why_tests_cant=p['why'], anchors=dict(files=p['files'], mechanism=p['mech']))) + '\n')
checks, na = [], []
for p in P:
    if os.path.exists(os.path.join(V, 'checks', p['id'] + '.py')):
        checks.append(dict(property=p['id'], quick_cmd='python3 run_check.py ' + p['id'], thorough_cmd='python3 run_check.py %s --thorough' % p['id'],
                           evidence_file='evidence/%s.json' % p['id'], technique=p['technique'], level=p['level'], level_note=p['note']))
    else:
        na.append(dict(property=p['id'], reason=NA.get(p['id']) or 'no check built yet'))
M = dict(version=1, setup_cmd='python3 -m compileall -q lib checks run_check.py', hooks=dict(guard='none', enable='no hooks: harnesses use the public objects of the code (compiled with -fno-access-control)', source_commits=[]),
         checks=checks, not_applicable=na)
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(M, f, indent=1); f.write('\n')
for p in P:
    assert len(p['title']) <= 80, p['id']
    assert p['statement'].count('. ') <= 3, p['id']
