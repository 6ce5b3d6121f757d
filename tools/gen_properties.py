#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the long texts stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                     observe_at=observe or [], hook_needed=hook)))

prop("C01", "The discrete equations do not depend on how the mesh is partitioned",
 "For a given mesh, configuration and flow state, the residual, local time steps and cell gradients computed by N cooperating processes equal, cell by cell and to rounding, those computed by one process. This holds for every number of processes, every assignment of cells to processes and every message timing, for the flow equations and for scalar diffusion.",
 ["configurations", "schedules", "inputs"],
 "all process counts, partitions (contiguous, graph-based or arbitrary), message delivery orders, meshes, flux/gradient/reconstruction options and states",
 "The MPI tests run two or four ranks of one default partition and look only at an order of accuracy; they never compare a cell's residual across partitions, and Open MPI on one host yields practically one delivery order.",
 ["src/spatial/flow_spatial.cpp", "src/spatial/aspatial.cpp", "src/spatial/agradientschemes.cpp", "src/spatial/diffusion.cpp", "src/linalg/tracevector.cpp", "src/linalg/petscutils.cpp"],
 [("ghost-cell update of states and gradients around the face loops", "FlowFV::compute_residual"), ("connectivity-face traces exchanged between subdomains", "L2TraceVector"), ("ghost cell centres", "Spatial::Spatial")],
 observe=["residual vector, time-step vector and gradient array, keyed by global cell index"])

prop("C02", "Multi-threaded execution is race-free and schedule-independent",
 "When several threads work on one process's cells, no two unsynchronised accesses to the same data conflict, and residuals, gradients, time steps, Jacobians and solver iterates equal the single-threaded ones to rounding. This holds for every number of threads and every interleaving of them.",
 ["schedules", "configurations"],
 "all thread counts, loop schedules and interleavings of the threads' memory accesses, for all flow options",
 "Tests use two OS threads with whatever interleaving the kernel happens to give; a lost update in a boundary loop needs one particular preemption inside one read-modify-write.",
 ["src/spatial/flow_spatial.cpp", "src/spatial/agradientschemes.cpp", "src/spatial/aspatial.cpp", "src/spatial/diffusion.cpp", "src/spatial/musclreconstruction.cpp", "src/spatial/limitedlinearreconstruction.cpp", "src/ode/aodesolver.cpp", "src/linalg/alinalg.cpp"],
 [("atomic updates and critical sections in face loops", "FlowFV::compute_residual, Spatial::assemble_jacobian"), ("reductions over cells", "SteadySolver loops")],
 observe=["memory accesses of instrumented code", "residual, gradients, Jacobian, iterates"])

prop("C03", "Subdomain boundary data is always the neighbour's current data",
 "After an exchange of face data or ghost-cell data between subdomains, every process holds for each shared face or ghost cell exactly the values its neighbour had put there for that exchange - never stale, swapped between faces, from another round or from another neighbour. This holds for any number of values per face, any partition and any order, delay or interleaving of messages and of successive exchanges.",
 ["schedules", "histories", "configurations"],
 "all message delays, reorderings between distinct pairs of processes, send-completion orders, relative speeds of the processes, and sequences of exchanges",
 "The one trace-vector test does a single exchange of cell centres on one small mesh and one partition into three, under the one delivery order Open MPI gives on one host.",
 ["src/linalg/tracevector.cpp", "src/linalg/tracevector.hpp", "src/linalg/petscutils.cpp", "src/mesh/mesh.cpp"],
 [("per-neighbour face lists and communication pattern", "L2TraceVector::update_comm_pattern"), ("split-phase exchange", "L2TraceVector::updateSharedFacesBegin/End"), ("ghost scatter", "createGhostedSystemVector and VecGhostUpdate")],
 observe=["trace vector contents on both sides of each shared face after each round"])

prop("C04", "Partitioning the mesh loses, duplicates and invents nothing",
 "Splitting a mesh over processes puts every cell in exactly one subdomain, pairs every face cut by the partition with exactly one counterpart on the neighbouring process, and keeps every cell's shape, coordinates and tags and every boundary face's markers. Cell areas, face lengths and normals of the parts are those of the whole, all processes agree on the partition, and every cell of a subdomain is bounded by its own closed loop of faces.",
 ["inputs", "configurations", "schedules"],
 "all meshes (triangles, quadrilaterals, mixed), process counts, cell-to-process assignments and timings of the partition's broadcast",
 "One test splits one 20-cell mesh into three with a fixed assignment and compares with stored files.",
 ["src/mesh/meshpartitioning.cpp", "src/mesh/meshpartitioning.hpp", "src/mesh/mesh.cpp", "src/mesh/ameshutils.cpp"],
 [("replicated mesh restricted to each process's cells", "ReplicatedGlobalMeshPartitioner::restrictMeshToPartitions"), ("connectivity faces", "extractInterSubdomainConnectivity / compute_faceConnectivity"), ("partition broadcast", "ScotchRGMPartitioner::compute_partition")],
 observe=["local meshes of all processes"])

prop("C05", "Inter-process communication always completes and is legal",
 "Every run ends on all processes: for every timing of messages and relative process speed no process waits for ever. Every message sent is received, all processes enter the same collective operations in the same order, no communication buffer is modified or read while in transfer or passed as both input and output, and nothing is pending at the end.",
 ["schedules", "configurations"],
 "all delivery orders, message delays, rendezvous or buffered sends, early or late completion of collectives, slow or stalled processes, process counts and flow configurations",
 "Open MPI buffers small messages eagerly and tolerates aliasing and many orderings; a deadlock or illegal buffer use that shows only with rendezvous sends or on another MPI library is invisible to tests on one host.",
 ["src/linalg/tracevector.cpp", "src/utilities/mpiutils.cpp", "src/ode/aodesolver.cpp", "src/mesh/meshpartitioning.cpp", "src/utilities/casesolvers.cpp", "src/spatial/aoutput.cpp"],
 [("non-blocking sends matched with receives and waits", "L2TraceVector"), ("global reductions of norms and time steps", "mpi_all_reduce, SteadyBackwardEulerSolver::solve"), ("barriers", "casesolvers.cpp")],
 observe=["every message-passing call"])

prop("C06", "A steady solve gives one answer, whatever ran it",
 "The converged flow solution and the reported number of iterations, residuals and convergence status of a steady solve agree on all processes of a run. The solution cell by cell agrees, within what the convergence tolerance allows, between any two runs of the same case with different process counts, thread counts and timings.",
 ["schedules", "configurations"],
 "all process counts, thread counts, message and thread schedules; explicit and implicit, first- and second-order runs with and without a start-up phase",
 "Each test runs one layout and checks a coarse quantity (order of convergence of an integral); no test compares layouts or ranks.",
 ["src/ode/aodesolver.cpp", "src/utilities/casesolvers.cpp", "src/ode/nonlinearrelaxation.cpp", "src/spatial/flow_spatial.cpp"],
 [("globally reduced residual norms decide termination", "SteadyForwardEulerSolver::solve, SteadyBackwardEulerSolver::solve"), ("start-up then main solve", "SteadyFlowCase::execute")],
 observe=["solution vector by global cell, timing data, exceptions on each process"])

prop("C07", "Convergence is reported if and only if it happened, on every process",
 "A steady solve reported as converged has its global residual norm reduced by the requested factor; a run that exhausts its step limit or produces NaN or infinity is reported as failed, on every process alike, and never as success or as a hang. A start-up phase that misses its tolerance does not stop the main phase, which begins from the start-up phase's final state.",
 ["inputs", "configurations", "schedules"],
 "all tolerances, step limits, CFL numbers, initial states, process counts and timings, and divergence at any iteration on any subset of processes",
 "One test provokes one NaN on one process; whether all ranks agree on failure, and whether reported convergence is genuine at the boundary cases, is not checked.",
 ["src/ode/aodesolver.cpp", "src/utilities/casesolvers.cpp", "src/utilities/aerrorhandling.hpp", "src/fvens_steady.cpp"],
 [("tolerance and step-limit test", "SteadySolver::solve"), ("exceptions for lack of tolerance or NaN", "Tolerance_error, Numerical_error"), ("starter catches tolerance failure", "SteadyFlowCase::execute")],
 observe=["convergence flag, exceptions, exit status; independently recomputed residual norm"])

prop("C08", "An input file is read completely and correctly or rejected",
 "A mesh or control file is either read as it is on disk, or the run ends with an error. A file that is missing, truncated, or fails or returns fewer bytes than asked part-way never leads to a solve on a different mesh or configuration, to a crash, or to a reader that does not terminate.",
 ["fault_sequences", "inputs"],
 "all points at which opening or reading can fail, end early, be interrupted or return short counts; truncation of the file at any byte; both mesh formats",
 "Tests read only intact files from a working disk.",
 ["src/mesh/meshreaders.cpp", "src/utilities/controlparser.cpp", "src/utilities/aerrorhandling.cpp", "src/utilities/aoptionparser.cpp"],
 [("mesh readers", "readGmsh2, readSU2, readMesh"), ("checked opening of files", "open_file_toRead"), ("control-file parser", "parse_flow_controlfile")],
 observe=["mesh data or exception; parsed options or exception"])

prop("C09", "Claimed output is complete output",
 "When a run ends reporting success, every result file it was asked for (volume, surface and visualisation output, final linear system, converted meshes, history) exists, is complete, well formed and holds the computed solution. A failure to open, write or close any of them is reported instead of success.",
 ["fault_sequences", "configurations"],
 "all points at which opening, writing or closing an output file can fail or be short or be interrupted (full disk, I/O error), for all output kinds",
 "Tests write to a working disk and mostly discard the files.",
 ["src/spatial/aoutput.cpp", "src/mesh/mesh.cpp", "src/utilities/casesolvers.cpp", "src/utilities/aerrorhandling.cpp", "src/utilities/convertformat.cpp", "src/ode/aodesolver.cpp"],
 [("checked opening of files", "open_file_toWrite"), ("writers", "FlowOutput, writeScalarsVectorToVtu_PointData, writeMeshToVtu, UMesh::writeGmsh2")],
 observe=["file contents versus solution; exceptions and exit status"])

prop("C10", "A run interrupted at any point can simply be run again",
 "After a run is killed at any point, with whatever partial files it left, running the same case again gives the same solution and the same output files as a run in a clean directory. No stale or partial content of earlier runs survives in the outputs, and input files are never modified.",
 ["crash_points", "fault_sequences"],
 "all points at which the process can be killed, with any prefix of the unsynchronised file writes surviving",
 "No test kills a run or runs in a directory with leftovers.",
 ["src/utilities/casesolvers.cpp", "src/spatial/aoutput.cpp", "src/utilities/aerrorhandling.cpp", "src/ode/aodesolver.cpp"],
 [("files are opened truncating; history of a case is appended by phase", "SteadyFlowCase::execute, open_file_toWrite"), ("inputs opened read-only", "open_file_toRead")],
 observe=["directory contents after the second run"])

prop("C11", "Running out of memory never corrupts a result silently",
 "If an allocation fails at any point of a run, the run either ends with a failure status on the job or gives the same results and files as without the failure. It never hangs, reports success with other results, or leaves the other processes waiting for ever.",
 ["fault_sequences", "crash_points"],
 "every allocation of the program's own code as the failing one, on any process",
 "Tests never run out of memory.",
 ["src/mesh/mesh.cpp", "src/utilities/aarray2d.hpp", "src/utilities/casesolvers.cpp", "src/fvens_steady.cpp", "src/linalg/tracevector.cpp"],
 [("allocation by throwing new", "all modules"), ("uncaught exceptions end the process", "fvens_steady main")],
 observe=["exit status, outputs"])

prop("C12", "The scheme is conservative across cells, threads and processes",
 "The sum over all cells of the residual equals the net flux through the physical boundary: a change of state in cells whose influence does not reach the boundary leaves the global sum unchanged, and whatever leaves one cell through a face enters its neighbour. This holds for every partition, thread schedule and message timing, including when neighbours live on different processes, for the flow equations and for scalar diffusion.",
 ["configurations", "schedules", "inputs"],
 "all states, meshes, numerical fluxes, reconstructions, process counts, partitions and schedules",
 "Tests look at entropy or drag errors on a few meshes, where a small lack of conservation at a subdomain boundary disappears in the discretisation error.",
 ["src/spatial/flow_spatial.cpp", "src/spatial/aspatial.cpp", "src/spatial/anumericalflux.cpp", "src/linalg/tracevector.cpp"],
 [("each face's flux subtracted from one side and added to the other", "FlowFV::compute_residual"), ("both owners of a cut face compute the same flux from exchanged states", "FlowFV::compute_residual")],
 observe=["sum of residuals over processes"])

prop("C13", "Uniform flow is preserved",
 "For a uniform state equal to the free stream on a domain with far-field boundaries only, the residual is zero to rounding in every cell and a solve leaves the state unchanged. This holds for every mesh, numerical flux, gradient and reconstruction scheme, viscous or not, and for every partition, thread count and schedule.",
 ["configurations", "schedules", "inputs"],
 "all meshes, free-stream Mach numbers and angles, schemes, process counts, partitions and schedules",
 "No test checks it; small metric errors at a partition boundary would disappear in the order-of-accuracy tests.",
 ["src/spatial/flow_spatial.cpp", "src/mesh/mesh.cpp", "src/spatial/agradientschemes.cpp", "src/spatial/abc.cpp"],
 [("closed cells: normals sum to zero", "UMesh::compute_face_data"), ("constants reconstructed exactly", "gradient and reconstruction classes")],
 observe=["residual vector"])

prop("C14", "Results depend only on the inputs",
 "Running the same case again with the same layout and schedule gives bit-for-bit the same solution, functionals and output files. Nothing computed depends on the clock, on leftover memory contents, on addresses, on the processor time or on previous use of the library in the same process.",
 ["histories", "configurations", "fault_sequences"],
 "all clock readings (including jumps and standstill), initial contents of allocated memory, and repeated use in one process, for all documented settings",
 "A test run sees one clock and memory that is usually fresh zero pages, so an uninitialised setting passes.",
 ["src/utilities/controlparser.cpp", "src/utilities/casesolvers.cpp", "src/ode/aodesolver.cpp", "src/spatial/flow_spatial.cpp", "src/linalg/alinalg.cpp", "src/mesh/mesh.cpp"],
 [("every option gets its documented default or value", "parse_flow_controlfile"), ("arrays initialised before use", "all modules"), ("wall-clock readings only go into timing reports", "aodesolver.cpp")],
 observe=["solution bits, output bytes"])

prop("C15", "Renumbering the cells does not change the solution",
 "Asking for any supported reordering of the cells changes only the numbering: the mesh keeps its cells, faces, markers and geometry, and residuals and solutions are the same at each physical cell, to rounding or the solver's tolerance.",
 ["inputs", "configurations"],
 "all meshes and supported orderings, thread counts and schedules",
 "Tests compare an ordering against a stored permutation; none checks the solution of the reordered problem.",
 ["src/mesh/mesh.cpp", "src/mesh/ameshutils.cpp", "src/mesh/meshordering.cpp"],
 [("permutation applied to all per-cell arrays", "UMesh::reorder_cells"), ("order computed from the matrix pattern or lines", "preprocessMesh, reorderMesh")],
 observe=["cell geometry and residual per cell centre"])

prop("C16", "The recorded convergence history is what happened",
 "With logging on, the residual-history file of a converged run has one record per iteration performed, in order and exactly once, whose values are the globally reduced residual norms (and their ratio to the initial one) that decided convergence. Timing records are non-negative and consistent under a monotonic clock, and the file content does not depend on the number of processes or on scheduling except by rounding.",
 ["histories", "schedules", "configurations"],
 "all runs: explicit and implicit, with and without start-up, any process count and schedule, any clock",
 "One test reads the last ratio of one serial history.",
 ["src/ode/aodesolver.cpp", "src/utilities/casesolvers.cpp"],
 [("history vector and writer", "SteadySolver::solve, TimingData, writeConvergenceHistory")],
 observe=["history file and timing data versus residuals recomputed from the iterates"])

prop("C17", "The assembled Jacobian is the same for every partition and schedule, and correct",
 "The assembled matrix, entry by entry in terms of global cells, does not depend on the partition, thread schedule or message timing. With a numerical flux whose exact linearisation is selected, applying it to any direction equals the directional derivative of the first-order residual; for scalar diffusion it is the derivative of the residual without gradient reconstruction.",
 ["configurations", "schedules", "inputs"],
 "all states, fluxes, boundary conditions, partitions, thread interleavings and message orders",
 "Tests compare isolated flux Jacobians with differences at a few states; the assembled distributed matrix is never compared with anything.",
 ["src/spatial/aspatial.cpp", "src/spatial/flow_spatial.cpp", "src/linalg/petscutils.cpp", "src/linalg/alinalg.cpp", "src/spatial/diffusion.cpp"],
 [("face-based block assembly guarded by critical sections", "Spatial::assemble_jacobian"), ("off-process columns through global cell indices", "Spatial::assemble_jacobian"), ("diagonal pseudo-time term", "addPseudoTimeTerm")],
 observe=["matrix entries by global cell pair"])

prop("C18", "The matrix-free operator is consistent with the residual",
 "The matrix-free Jacobian applied to a direction equals the pseudo-time term plus the directional derivative of the residual at the current state, within differencing error; it is repeatable and does not alter the state or the stored residual. This holds on any number of processes and threads and for any sequence of states and directions.",
 ["histories", "schedules", "configurations"],
 "all states, directions, call sequences, partitions and schedules",
 "Matrix-free solves are not compared with anything in the tests except that a run converges.",
 ["src/linalg/alinalg.cpp", "src/spatial/flow_spatial.cpp"],
 [("finite-difference directional derivative with globally reduced norms", "MatrixFreeSpatialJacobian::apply")],
 observe=["product vector by global cell"])

prop("C19", "Integrated and surface results do not depend on the layout",
 "Lift, drag and the other quantities a run returns (entropy error, mesh size) are the same, to rounding for the same flow state, on every process and for every process count, partition, thread count and schedule. Lift and drag equal the integrals of that state over the named boundary parts.",
 ["configurations", "schedules"],
 "all partitions (including processes that own no wall face), process counts, states and schedules",
 "MPI tests look only at convergence orders of one functional on one partition.",
 ["src/spatial/aoutput.cpp", "src/spatial/flow_spatial.cpp", "src/utilities/casesolvers.cpp"],
 [("surface integrals with global reductions", "FlowFV_base::computeSurfaceData"), ("entropy error", "FlowFV_base::compute_entropy_cell"), ("functionals", "FlowCase::run_output")],
 observe=["returned functionals on each process"])

prop("C20", "Unsteady integration advances every cell through the same time",
 "An unsteady run advances all cells on all processes by the same, globally stable, sequence of time steps up to the requested final time. Its result agrees to rounding with that of a one-process, one-thread run, for every partition, thread count and schedule. A run whose solution becomes NaN or infinite is reported as failed, on every process alike.",
 ["configurations", "schedules", "histories"],
 "all process counts, partitions, schedules, orders of the time scheme and final times",
 "The one unsteady test runs on a single process.",
 ["src/ode/aodesolver.cpp"],
 [("global minimum time step", "TVDRKSolver::solve"), ("stage updates", "TVDRKSolver::solve")],
 observe=["state by global cell after the run"])

prop("C21", "Mesh files written can be read back as the same mesh",
 "A mesh written in the library's native format and read back - also through converting from the other supported format - has the same vertices, cells, boundary faces and markers, and boundary faces of different markers remain distinct entities. A write or read that fails on the way is reported.",
 ["inputs", "fault_sequences"],
 "all meshes of the supported cell types and formats, and all I/O failures, short transfers and interruptions on the way",
 "The converter is not tested.",
 ["src/mesh/mesh.cpp", "src/mesh/meshreaders.cpp", "src/utilities/convertformat.cpp"],
 [("writer", "UMesh::writeGmsh2"), ("readers", "readGmsh2, readSU2")],
 observe=["mesh data before and after"])

prop("C22", "Each pseudo-time step is the step the method defines",
 "In a steady solve every explicit step adds CFL x local time step / volume x residual to the state, with the residual and the local time step of the current state. Every implicit step solves the system made of the current state's Jacobian plus volume / (CFL x local time step) on the diagonal, with the current residual as its right side, and adds the solution, in full or relaxed cell by cell as the chosen update rule defines. The CFL number of an implicit step is the same for all cells and processes, is the configured one in the first step, stays between the configured limits, and is the one recorded in the history. All this holds for any number of processes and threads and any timing, and for flow and for scalar diffusion.",
 ["configurations", "schedules", "histories"],
 "all cases, CFL ramps, update rules, step numbers, process counts, thread counts and timings",
 "Tests check only that a solve converges to the right functionals; a step taken with a stale time step, a wrong relaxation or another CFL number still converges, only slower or less robustly.",
 ["src/ode/aodesolver.cpp", "src/ode/nonlinearrelaxation.cpp", "src/physics/aphysics_defs.hpp", "src/spatial/diffusion.cpp"],
 [("explicit update", "SteadyForwardEulerSolver::solve"), ("pseudo-time term and linear system", "SteadyBackwardEulerSolver::addPseudoTimeTerm, SteadyBackwardEulerSolver::solve"), ("relaxation", "FullUpdate, FlowSimpleUpdate"), ("CFL ramp", "SteadySolver ramp functions")],
 observe=["states, residuals and time steps of successive evaluations; operators, right side and solution of each linear solve"])

# --- listed, but outside what schedules / faults / histories can decide here
prop("C30", "Numerical fluxes are consistent and conservative per face",
 "For equal left and right states every numerical flux returns the physical flux, and exchanging the two states together with the normal negates it.",
 ["inputs"], "all admissible states and unit normals",
 "Tests sample a few states per flux.",
 ["src/spatial/anumericalflux.cpp"], [("upwind flux formulas", "InviscidFlux::get_flux implementations")])
prop("C31", "Gas-model conversions are mutually inverse",
 "Conversions between conserved, primitive and primitive-with-temperature variables are inverse to each other for admissible states, and derived quantities satisfy the perfect-gas relations.",
 ["inputs"], "all admissible states", "Tests sample a few states.",
 ["src/physics/aphysics_defs.hpp", "src/physics/aphysics.hpp"], [("closed-form conversions", "IdealGasPhysics")])
prop("C32", "Boundary conditions impose what they say",
 "The exterior state of each boundary condition satisfies the condition it stands for (no normal velocity at slip walls, zero velocity and given temperature or heat flux at no-slip walls, given entropy and total state at inflow), and its linearisation is its derivative.",
 ["inputs"], "all admissible interior states, normals and boundary values", "Tests sample a few states of a few conditions.",
 ["src/spatial/abc.cpp", "src/spatial/abc.hpp"], [("ghost-state formulas", "FlowBC classes")])
prop("C33", "Limited reconstruction creates no new extrema",
 "With a limiter on, reconstructed face values lie within the range of the neighbouring cell averages as the limiter promises.",
 ["inputs"], "all states and meshes", "Tests check global convergence orders only.",
 ["src/spatial/limitedlinearreconstruction.cpp", "src/spatial/musclreconstruction.cpp"], [("limiter formulas", "BarthJespersenLimiter, VenkatakrishnanLimiter, MUSCL")])
prop("C34", "The schemes converge at their nominal order",
 "On smooth solutions the discretisation error of the second-order schemes decreases at second order as the mesh is refined.",
 ["inputs"], "all smooth solutions and regular mesh families", "Tests sample a few flows and mesh families.",
 ["src/spatial/flow_spatial.cpp", "src/spatial/agradientschemes.cpp"], [("linear reconstruction", "SolutionReconstruction")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
