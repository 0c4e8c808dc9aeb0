#!/usr/bin/env python3
"""Writes MANIFEST.json and meta.json (texts used in the evidence files) from one table."""
import json
ALL = ['C%02d' % i for i in range(1, 20)]
LIBREAL = ["thunder library (src/thunder/src, compiled from /repo's working tree)", 'thunder command line (src/thunder/thunder_main.cpp) in forked children', 'generated classes and generated C code of arms produced through that command line', 'CasADi, yaml-cpp, Eigen (installed)']
DISK = 'libc file I/O and clock: interposed; every open/read/write/close/stat/mkdir/sendfile/rename below the scratch roots is an event the seeded plan may fail, shorten, interrupt, or end the process at; otherwise passed on to a scratch directory'
BUS = 'message transport between plant, sensors, estimator and model: simulated (loss, duplication, reordering, delay, malformed messages)'
M = {
 'C01': dict(tech='deterministic simulation: simulated sensor bus and clock, invariants per event against a reference model and numerical motion', level='exploration',
   note='Random arms and motions, seeded; sampled, not exhaustive. Tolerances: 1e-7 relative for reported values, finite differences only count when they do not shrink with the step.',
   rule='one run = one arm (in-process Robot or class generated through the real CLI) driven along a scripted motion through a lossy, duplicating, reordering bus; non-trivial: at least one consistency check of poses/Jacobians/rates was evaluated after an accepted message',
   real=LIBREAL, stub=[BUS, 'plant motion: analytic trajectory']),
 'C02': dict(tech='deterministic simulation: energy balance of a simulated plant over seeded motions and message faults', level='exploration',
   note='Closed-loop simulated motions; energy computed body by body by an independent reference; drift counts only if it does not shrink when the time step is divided by four.',
   rule='one run = one arm simulated along a motion under seeded torques/messages; non-trivial: the energy balance was evaluated', real=LIBREAL, stub=[BUS, 'plant integrator: reference model']),
 'C03': dict(tech='deterministic simulation: adaptive control loop with message faults and controller restarts, Lyapunov function as invariant', level='exploration',
   note='Lyapunov monotonicity while messages flow, bounded recovery after the last fault; regressor identities at each event.',
   rule='one run = one arm, one adaptive controller, one fault schedule; non-trivial: regressor identities and the Lyapunov invariant were evaluated', real=LIBREAL, stub=[BUS, 'plant integrator: reference model']),
 'C04': dict(tech='deterministic simulation: simulated motor/link system with friction and springs, energy ledger as invariant', level='exploration',
   note='Signs, oddness and energy ledger per event; reference polynomial on the joint each actuator drives.',
   rule='one run = one arm with friction and/or elastic joints along a simulated motion; non-trivial: the energy ledger or a per-joint torque check was evaluated', real=LIBREAL, stub=[BUS, 'plant integrator: reference model']),
 'C05': dict(tech='deterministic simulation: fleets of instances fed by an unreliable bus; bit-equality with a fresh instance given only the last accepted inputs', level='exploration',
   note='Refinement check on the recorded history, every answer bit compared; each run executed twice with different content of uninitialised memory.',
   rule='one run = a seeded history of messages, malformed messages, copies, restarts and queries over up to four instances; non-trivial: at least one canonical comparison was made', real=LIBREAL, stub=[BUS, 'fresh memory content (filled with two different patterns)']),
 'C06': dict(tech='deterministic simulation: update/load histories with refused and failed updates against a two-column ledger', level='exploration',
   note='Ledger of both sets after every operation, bit-exact for the addressed set, 1e-9 for the derived one.',
   rule='one run = a seeded history of set/load/refused/failed updates, copies and restarts; non-trivial: the ledger was compared after each operation', real=LIBREAL, stub=[BUS, 'fresh memory content (filled with two different patterns)']),
 'C07': dict(tech='deterministic simulation: update histories against an arm built with the resulting values fixed', level='exploration',
   note='All common queries compared (1e-8, 1e-6 for second derivatives) after each seeded history.',
   rule='one run = a seeded history of updates, loads, refused messages and restarts, then comparison of every query with the baked arm; non-trivial: the comparison was made', real=LIBREAL, stub=[BUS, 'fresh memory content (filled with two different patterns)']),
 'C08': dict(tech='deterministic simulation of threads: seeded scheduler owns every interleaving at memory-access granularity', level='exploration',
   note='Generated code compiled with access instrumentation; one simulated thread runs at a time; results bit-compared with the sequential execution.',
   rule='one run = 2 to 4 simulated threads, each querying and updating instances of generated arms, under one seeded preemption schedule; non-trivial: at least one preemption happened inside a query', real=LIBREAL[2:], stub=['thread scheduler: simulated; one thread runs at a time, switches at instrumented memory accesses', 'thread start, stall and exit: decided by the schedule']),
 'C09': dict(tech='deterministic simulation: save, restart, load over a simulated disk with short and interrupted I/O', level='exploration',
   note='Bit-exact comparison of parameters and answers after restart.', rule='one run = random finite parameters, one save/load pair, restart; non-trivial: a saved file was loaded back and every answer compared', real=LIBREAL, stub=[DISK]),
 'C10': dict(tech='deterministic simulation: failing and damaged loads over a simulated disk, state comparison with an instance that never saw them', level='exploration',
   note='Reported failures must leave every parameter bit unchanged; unreported ones may only bring in values of the file.', rule='one run = a live model, a history of failing/damaged loads, then an intact load; non-trivial: at least one damaged or failing load was attempted', real=LIBREAL, stub=[DISK]),
 'C11': dict(tech='deterministic simulation: saves over a simulated disk with failing, short, full and crashing writes', level='exploration',
   note='Success implies byte-equality with an undisturbed save; absence of error faults implies success.', rule='one run = a live model and a history of saves under a seeded disk-fault plan; non-trivial: at least one save was attempted with the plan active', real=LIBREAL, stub=[DISK]),
 'C12': dict(tech='deterministic simulation: generator killed or power lost at a seeded point of its I/O, then run again', level='exploration',
   note='Crash point, partial write, loss of unsynced data and stale files drawn from the seed; byte-equality of the final tree with an uninterrupted run.', rule='one run = one configuration and option set, one to three interrupted runs, then the same command again; non-trivial: a crash actually happened inside the run', real=LIBREAL[:2] + LIBREAL[3:], stub=[DISK, 'power loss: files written by the dead process lose a seeded part of what was written']),
 'C13': dict(tech='deterministic simulation: generator under seeded disk faults, success message checked against the tree', level='exploration',
   note='One fault (or a full disk, missing template, damaged configuration) per run; announced success must match the undisturbed tree byte for byte.', rule='one run = one configuration and option set and one fault; non-trivial: the fault fired or the damaged input was read', real=LIBREAL[:2] + LIBREAL[3:], stub=[DISK]),
 'C14': dict(tech='deterministic simulation: generators interleaved by a seeded scheduler at every file operation, simulated clock and environment', level='exploration',
   note='Byte-equality of trees across schedules, clocks, environments, heap contents and histories.', rule='one run = one or two generators under one schedule/environment; non-trivial: two generators interleaved or at least two environment dimensions varied', real=LIBREAL, stub=[DISK, 'scheduler of concurrent generator processes: lock-step gates at every file operation', 'clock: virtual, jumps']),
 'C15': dict(tech='deterministic simulation: converter under a seeded random source and disk faults', level='exploration',
   note='Unperturbed files compared with an independent reference (1e-12), perturbed ones parameter by parameter with the labelled bound, independence over the recorded draws.', rule='one run = one source file, one random sequence (including degenerate ones), optional disk fault; non-trivial: output files were written and compared or a fault fired', real=['genYAML converter (src/genYAML, compiled from /repo)', 'genInertial_files (src/thunder)', 'yaml-cpp, Eigen'], stub=[DISK, 'std::random_device: seeded, including degenerate sequences']),
 'C16': dict(tech='deterministic simulation: seeded histories of adding, replacing, refusing and querying functions interleaved with state messages, then generation through the command line and the library API', level='exploration',
   note='Answers compared with the same formula evaluated in doubles by the harness (1e-6 relative); built-in answers must not change a bit; exported arms compiled and compared.', rule='one run = a seeded history of added/replaced/refused functions and updates; non-trivial: at least one added function was answered and compared', real=LIBREAL, stub=[BUS, 'body of compute_userDefined (the place where users write their functions): filled by the harness from the seed']),
 'C17': dict(tech='deterministic simulation: seeded histories of Python calls against the same calls on the generated class, over a faulty simulated disk', level='exploration',
   note='The generated binding code is compiled against a stand-in for pybind11 (not installed) that implements its documented argument rules; results, messages, errors, saved files and all parameters compared bit for bit after each call.',
   rule='one run = one arm generated with -p, one to three objects, a seeded history of positional/keyword/default calls, malformed arguments, loads and saves under disk faults; non-trivial: all parameters and every query were compared', real=LIBREAL[1:], stub=['pybind11: registry with positional/keyword/default arguments and conversions instead of a Python interpreter (sim/pystub)', DISK]),
 'C19': dict(tech='deterministic simulation: seeded histories of damaged configuration texts and read faults against a strict reference reader and the reference model', level='exploration',
   note='Texts that are neither clearly complete nor clearly incomplete (duplicate keys, flags other than 0/1, non-finite numbers, ...) are only required not to crash, to be treated alike by library and generator, and to be answered deterministically.',
   rule='one run = up to six attempts to build arms from damaged, torn, cut or rewritten configuration texts, in a process that holds another arm, in memory, from the simulated disk or through the command line; non-trivial: a damaged text had to be refused or several texts were tried',
   real=[LIBREAL[0], LIBREAL[1], LIBREAL[3]], stub=[DISK, 'editor and interrupted writer of configurations: 24 seeded kinds of damage'])
}
BUILT = ['C%02d' % i for i in range(1, 20) if i != 18]
NA = {
 'C18': 'Merging two bodies is a pure function of its two arguments: no schedule, time, I/O, fault or history enters, so it is not a simulation target (see guide).',
}
ASSUME = ['sampling: a clean batch is evidence, not proof', 'the reference model in sim/core/ref.h is correct (written independently of the code under test)', 'compiler, libc, CasADi, yaml-cpp and Eigen behave as documented', 'faults are those of the simulated disk, bus, clock and scheduler listed in the evidence']
TODO = 'claimed property whose simulator world is not finished yet (see DESIGN.md)'
checks = [dict(property=i, quick_cmd='python3 check.py %s' % i, thorough_cmd='python3 check.py %s --tier thorough' % i, technique=M[i]['tech'], level=M[i]['level'], level_note=M[i]['note']) for i in ALL if i in BUILT]
man = dict(version=1, setup_cmd='python3 check.py --setup', checks=checks, not_applicable=[dict(property=i, reason=NA.get(i, TODO)) for i in ALL if i not in BUILT])
json.dump(man, open('MANIFEST.json', 'w'), indent=1); open('MANIFEST.json', 'a').write('\n')
json.dump({i: dict(level=M[i]['level'], rule=M[i]['rule'], real=M[i]['real'], stub=M[i]['stub'], assumptions=ASSUME) for i in M}, open('meta.json', 'w'), indent=1); open('meta.json', 'a').write('\n')
