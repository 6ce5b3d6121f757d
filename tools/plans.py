"""What each check runs: scenarios, parameters and counts for the quick tier (thorough multiplies them)."""
SCHED = 'one case = one job seed: a generated mesh, configuration, state, and for each simulated run a process/thread layout, partition and scheduling strategy. distinct_nontrivial counts distinct executions by the hash of all scheduling, delivery and fault decisions taken and of the file operations made (runs of equal decisions count once).'
PURE = 'pure function of its arguments: no schedule, time, I/O, fault or other party can influence it, so simulation adds nothing to calling it on inputs'
NA = {'C30': PURE, 'C31': PURE, 'C32': PURE, 'C33': PURE + ' (the inputs that do cross processes - neighbour averages - are covered by C01 and C03)', 'C34': 'a numerical-analysis statement about refinement; no nondeterminism takes part in it (independence of the layout is C01)'}
N = 'Seeded search over generated meshes, configurations and layouts; sampled, not exhaustive. Trusts the MPI/OpenMP semantics of sim/.'
MT = {'mt': 1, 'mint': 2, 'maxt': 3, 'maxp': 1, 'maxx': 6}   # threads
MP = {'mt': 1, 'mint': 1, 'maxt': 2, 'maxp': 3, 'maxx': 6}   # processes and threads
BIG = {'minx': 12, 'maxx': 26}                              # larger meshes
FILES = 'one case = one job seed: a generated mesh, case and control file, an undisturbed run, and several runs with one disturbance each, drawn relative to the operations the undisturbed run made. distinct_nontrivial counts distinct executions by the hash of all scheduling, delivery and fault decisions taken, clock and memory modes, and file operations made.'
NF = 'Seeded search over generated cases and fault positions; sampled, not exhaustive. Files under the scratch directory are real; faults are injected where the C library passes the calls on.'
PLANS = {
 'C01': dict(technique='seeded process schedules and message delays, random partitions; cell-by-cell against a one-process run', note=N, rule=SCHED,
   jobs=[dict(kind='resid', n=1500, p={'maxp': 6}), dict(kind='resid', n=300, p={'maxp': 9, 'minp': 4}), dict(kind='heat', n=300, p={'maxp': 6, 'jac': 0, 'mf': 0, 'solve': 0}), dict(kind='resid', n=80, p={**BIG, 'maxp': 8, 'minp': 2})]),
 'C02': dict(technique='seeded thread interleavings with a happens-before race detector; values against the one-thread run', note=N + ' The race detector sees accesses of code compiled from /repo (incl. templates and inlined headers), not inside PETSc.', rule=SCHED,
   jobs=[dict(kind='resid', n=500, p={**MT, 'maxt': 4}), dict(kind='resid', n=200, p={**MT, 'maxt': 4, 'maxp': 3}), dict(kind='jacobian', n=120, p={**MT, 'exact': 0}), dict(kind='matfree', n=60, p=MT), dict(kind='surface', n=80, p=MT), dict(kind='unsteady', n=80, p=MT), dict(kind='steady', n=60, p={**MT, 'maxx': 5}), dict(kind='heat', n=100, p={**MT, 'maxt': 4}), dict(kind='resid', n=16, p={**BIG, 'mt': 1, 'mint': 2, 'maxt': 4, 'maxp': 2})]),
 'C03': dict(technique='seeded message delays, overtaking and buffer poisoning; values tagged by owner, face and round', note=N, rule=SCHED,
   jobs=[dict(kind='trace', n=4000, p={'maxp': 6}), dict(kind='trace', n=480, p={'maxp': 10}), dict(kind='trace', n=190, p={**BIG, 'maxp': 12})]),
 'C04': dict(technique='seeded schedules and partitions (fixed, block, Scotch); the parts against an independent model of the mesh', note=N, rule=SCHED,
   jobs=[dict(kind='partition', n=3000, p={}), dict(kind='partition', n=400, p={'maxp': 12}), dict(kind='partition', n=240, p={**BIG, 'maxp': 12})]),
 'C05': dict(technique='seeded search over message timing, eager/rendezvous, delay to the extreme, stalled ranks; MPI usage rules checked on every call and at the end; deadlock found by the scheduler', note=N, rule=SCHED,
   jobs=[dict(kind='trace', n=500, p={'maxp': 8}), dict(kind='resid', n=300, p={'maxp': 8, 'minp': 2}), dict(kind='partition', n=200, p={'maxp': 8}), dict(kind='jacobian', n=150, p={'maxp': 6, 'exact': 0}), dict(kind='matfree', n=120, p={'maxp': 6}), dict(kind='surface', n=200, p={'maxp': 6}), dict(kind='unsteady', n=150, p={'maxp': 6}), dict(kind='reorder', n=100, p={'maxp': 6}), dict(kind='steady', n=250, p={'maxp': 5}), dict(kind='heat', n=150, p={'maxp': 6}), dict(kind='trace', n=40, p={**BIG, 'maxp': 12}), dict(kind='resid', n=40, p={**BIG, 'maxp': 8, 'minp': 2})]),
 'C12': dict(technique='seeded layouts and schedules; conservation invariant over perturbed interior states and closed boxes', note=N, rule=SCHED,
   jobs=[dict(kind='conserve', n=900, p={'maxp': 6}), dict(kind='conserve', n=180, p=MP), dict(kind='heat', n=300, p={'maxp': 6, 'jac': 0, 'mf': 0, 'solve': 0}), dict(kind='conserve', n=90, p={**BIG, 'maxp': 8})]),
 'C13': dict(technique='seeded layouts and schedules; zero residual and gradients of the free stream', note=N, rule=SCHED,
   jobs=[dict(kind='freestream', n=1260, p={'maxp': 6}), dict(kind='freestream', n=210, p=MP), dict(kind='steady', n=350, p={'maxp': 4, 'farfield': 1}), dict(kind='freestream', n=140, p={**BIG, 'maxp': 8})]),
 'C17': dict(technique='seeded layouts and schedules; matrix entries against one process, against the difference quotient of the residual, and the structure of the mesh', note=N + ' Exactness is compared for the Roe, HLLC and AUSM linearisations; LLF and HLL are documented as approximate. Cells where the recorded findings apply, and cells with a kink of the flux within the difference step, are left out of the exactness comparison.', rule=SCHED,
   jobs=[dict(kind='jacobian', n=700, p={'maxp': 6}), dict(kind='jacobian', n=140, p={'maxp': 6, 'exact': 0}), dict(kind='jacobian', n=170, p=MP), dict(kind='heat', n=280, p={'maxp': 6, 'mf': 0, 'solve': 0}), dict(kind='heat', n=80, p={**MP, 'mf': 0, 'solve': 0}), dict(kind='jacobian', n=80, p={**BIG, 'maxp': 6})]),
 'C18': dict(technique='seeded layouts and schedules, sequences of states and directions; the definition evaluated on one process', note=N, rule=SCHED,
   jobs=[dict(kind='matfree', n=1000, p={'maxp': 6}), dict(kind='matfree', n=200, p=MP), dict(kind='heat', n=400, p={'maxp': 6, 'jac': 0, 'solve': 0}), dict(kind='matfree', n=120, p={**BIG, 'maxp': 6})]),
 'C19': dict(technique='seeded layouts and schedules; integrals recomputed from the recorded state and gradients', note=N, rule=SCHED,
   jobs=[dict(kind='surface', n=780, p={'maxp': 6}), dict(kind='surface', n=130, p=MP), dict(kind='functionals', n=460, p={'maxp': 5}), dict(kind='functionals', n=80, p=MP), dict(kind='surface', n=100, p={**BIG, 'maxp': 6})]),
 'C20': dict(technique='seeded layouts and schedules; a reference Runge-Kutta integration over the same residual on one process', note=N, rule=SCHED,
   jobs=[dict(kind='unsteady', n=840, p={'maxp': 6}), dict(kind='unsteady', n=140, p=MP), dict(kind='unsteady', n=70, p={**BIG, 'maxp': 6}), dict(kind='unsteady', n=80, p={'maxp': 4, 'blow': 1})]),
 'C15': dict(technique='seeded layouts and schedules, every ordering option; mesh, residual, time steps and Jacobian per physical cell against the unordered one-process run', note=N, rule=SCHED,
   jobs=[dict(kind='reorder', n=900, p={'maxp': 1}), dict(kind='reorder', n=900, p={'maxp': 6}), dict(kind='reorder', n=220, p=MP), dict(kind='steady', n=220, p={'maxp': 4, 'reorder': 1}), dict(kind='reorder', n=220, p={**BIG, 'maxp': 6})]),
 'C06': dict(technique='seeded layouts and schedules of whole steady solves; outcomes on all ranks, iterates and final states against one process, within a measured sensitivity to rounding', note=N + ' Iterates are compared with the one-process run only while a run of the same case from a state changed in the tenth digit shows that rounding is not amplified beyond the tolerance used.', rule=SCHED,
   jobs=[dict(kind='steady', n=700, p={'maxp': 5}), dict(kind='steady', n=80, p=MP), dict(kind='heat', n=200, p={'maxp': 5, 'jac': 0, 'mf': 0}), dict(kind='steady', n=16, p={**BIG, 'maxp': 4, 'worlds': 2})]),
 'C07': dict(technique='seeded layouts, schedules and step limits incl. diverging runs and failing start-up phases; the reported outcome against the recorded global residual norms', note=N, rule=SCHED,
   jobs=[dict(kind='steady', n=800, p={'maxp': 4}), dict(kind='steady', n=200, p={'maxp': 2, 'maxx': 4, 'maxsteps': 40}), dict(kind='steady', n=60, p={'maxp': 2, 'maxx': 3, 'maxsteps': 240, 'long': 1}), dict(kind='main', n=100, p={'mode': 'clean', 'blow': 1}), dict(kind='heat', n=200, p={'maxp': 5, 'jac': 0, 'mf': 0})]),
 'C16': dict(technique='seeded layouts, schedules and simulated clocks (smooth, jumping, stalling, backwards); the history file against the recorded iterations', note=N, rule=SCHED,
   jobs=[dict(kind='steady', n=800, p={'maxp': 4}), dict(kind='steady', n=100, p={'maxp': 2, 'maxx': 3, 'maxsteps': 240, 'long': 1})]),
 'C08': dict(technique='seeded faults on input: truncation at any byte, failing or short reads and opens, malformed entries; the undisturbed run against the library set up by hand', note=NF, rule=FILES,
   jobs=[dict(kind='main', n=980, p={'mode': 'read'}), dict(kind='main', n=420, p={'mode': 'clean', 'worlds': 1}), dict(kind='convert', n=560, p={'mode': 'read'}), dict(kind='options', n=420)]),
 'C09': dict(technique='seeded faults on output: full disk at any byte, failing, short or interrupted writes, opens and closes; files compared with those of an undisturbed run, which are compared with the solution', note=NF, rule=FILES,
   jobs=[dict(kind='main', n=900, p={'mode': 'write'}), dict(kind='convert', n=500, p={'mode': 'write'})]),
 'C10': dict(technique='seeded kills at any file operation with torn last write, then a rerun in the same directory; files compared with those of a run in a clean one', note=NF, rule=FILES,
   jobs=[dict(kind='main', n=900, p={'mode': 'kill'}), dict(kind='convert', n=900, p={'mode': 'kill'})]),
 'C11': dict(technique='one seeded failing allocation per run; failure reported or files and status of the undisturbed run', note=NF + ' Failing allocations are those of operator new in code of /repo and the libraries it uses; PETSc\'s own malloc is not failed.', rule=FILES,
   jobs=[dict(kind='main', n=1050, p={'mode': 'alloc'}), dict(kind='convert', n=600, p={'mode': 'alloc'})]),
 'C14': dict(technique='same case and schedule with other leftover memory, other clocks (smooth, jumping, stalling, backwards) and after other cases in the same process; bitwise comparison', note=NF, rule=FILES,
   jobs=[dict(kind='main', n=1120, p={'mode': 'clean', 'worlds': 5}), dict(kind='main', n=100, p={'mode': 'clean', 'implicit': 1, 'nolin': 1})]),
 'C21': dict(technique='seeded meshes in both formats, converted and read back; seeded faults on reading and writing', note=NF, rule=FILES,
   jobs=[dict(kind='convert', n=600, p={'mode': 'clean'}), dict(kind='convert', n=200, p={'mode': 'read'}), dict(kind='convert', n=200, p={'mode': 'write'}), dict(kind='convert', n=200, p={'mode': 'kill'}), dict(kind='convert', n=150, p={'mode': 'alloc'}), dict(kind='convert', n=60, p={**BIG, 'mode': 'clean'})]),
 'C22': dict(technique='seeded layouts, schedules and clocks of whole steady solves; every step of the main phase against its definition, on the recorded residuals, time steps, matrices and states', note=N + ' Of the flow solver, the steps of the main phase are checked; the matrix is observed through its product with the update.', rule=SCHED,
   jobs=[dict(kind='steady', n=700, p={'maxp': 5, 'watchall': 1}), dict(kind='steady', n=80, p={**MP, 'watchall': 1}), dict(kind='heat', n=300, p={'maxp': 5, 'jac': 0, 'mf': 0}), dict(kind='heat', n=60, p={**MP, 'jac': 0, 'mf': 0}), dict(kind='steady', n=12, p={**BIG, 'maxp': 4, 'worlds': 1, 'watchall': 1})]),
}
