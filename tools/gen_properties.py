"""Writes /verif/properties.jsonl (kept as code so that it stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=hook)))

prop("C01", "A parallel run computes exactly what the serial run computes",
 "For every simulation description, number of MPI processes and split of the domain, the moments and distribution functions gathered from all processes after any number of time steps equal those of the same simulation run on one process. This holds for every order in which the processes and their messages progress, for every storage order and code generator, and with obstacles, boundary conditions, source terms and vectorial schemes anywhere with respect to the process interfaces.",
 ["schedules", "configurations", "inputs"],
 "all process counts and splits, all legal MPI delivery/buffering orders, all simulation descriptions (scheme, geometry, boundary conditions, storage order, backend)",
 "The suite never runs with more than one process: no halo exchange between distinct ranks, no uneven split, no interface cutting an obstacle is ever executed.",
 ["pylbm/storage.py", "pylbm/domain.py", "pylbm/mpi_topology.py", "pylbm/boundary.py", "pylbm/simulation.py", "pylbm/container.py", "pylbm/algorithm/base.py"],
 [("halo exchange of the distribution functions", "pylbm/storage.py Array.update/_set_subarray"), ("domain split", "pylbm/mpi_topology.py"), ("interfaces excluded from boundary conditions", "pylbm/domain.py")],
 ["Simulation.m / Simulation.F on every rank after every step"])

prop("C02", "The processes' subdomains tile the global domain",
 "For every box, space step, stencil and process grid, each interior grid point belongs to exactly one process, and the coordinates, fluid/solid marking, boundary distances, boundary labels and normals a process holds for its points are those the serial domain holds for the same points. Interfaces between processes never show up as physical boundaries and physical boundaries are never lost at an interface.",
 ["configurations", "inputs", "schedules"],
 "all boxes, element sets (solid and fluid, in any order), stencils with any reach, process grids and user-requested splits",
 "The domain tests build one-process domains only; the split and the interface labelling are never exercised.",
 ["pylbm/domain.py", "pylbm/mpi_topology.py"],
 [("region indices", "pylbm/mpi_topology.py get_region"), ("interface labels", "pylbm/domain.py Domain.__init__"), ("element marking", "pylbm/domain.py __add_elem")],
 ["Domain.coords, in_or_out, distance, flag, normal on every rank"])

prop("C03", "A parallel run always makes progress and leaves no communication behind",
 "Whatever the relative speed of the processes and whether the MPI library buffers sends or not, every process finishes construction, any number of time steps and result output within a bounded number of communication steps. No process waits for a message that is never sent, no message or request is left pending at the end, and every received message has the size and place that was announced.",
 ["schedules", "configurations"],
 "all interleavings of the processes, stalled processes, eager or rendezvous sends, early or late completion of collectives",
 "Deadlocks and leaked messages need several processes and an unlucky buffering mode; the suite runs one process under one MPI configuration.",
 ["pylbm/storage.py", "pylbm/hdf5.py", "pylbm/simulation.py", "pylbm/mpi_topology.py"],
 [("non-blocking exchange", "pylbm/storage.py Array.update"), ("gather on rank 0", "pylbm/hdf5.py _set_dset/add_scalar/add_vector"), ("construction collectives", "pylbm/simulation.py, pylbm/hdf5.py")],
 ["termination of every rank, pending requests and messages at the end"])

prop("C04", "Conserved quantities are conserved globally, step by step",
 "Without source terms, the sum over all processes of each conserved moment stays constant (up to rounding) at every time step in a fully periodic domain, and the conserved mass over the fluid points stays constant in a domain closed by periodic sides and bounce-back walls or obstacles at rest. This holds for every process split and message schedule.",
 ["schedules", "configurations", "inputs"],
 "all splits and schedules, all schemes whose conserved moments are not relaxed, all closed geometries",
 "Tests compare a final field with a stored reference on one process; no test sums a conserved moment, let alone across processes.",
 ["pylbm/storage.py", "pylbm/boundary.py", "pylbm/algorithm/base.py", "pylbm/algorithm/pull.py", "pylbm/domain.py"],
 [("periodic and interface exchange", "pylbm/storage.py update"), ("bounce back", "pylbm/boundary.py BounceBack"), ("collision", "pylbm/algorithm/base.py relaxation_local")],
 ["sum of Simulation.m over fluid points, after every step"])

prop("C05", "Saved output equals the global fields and describes itself correctly",
 "For every number of processes, split (even or not), dimension, element type of the data and message schedule, a file saved by all processes contains the coordinates and each scalar and vector field exactly as the global arrays hold them, at the place of the process that owns them. The companion description file refers to exactly the datasets saved, with their true shapes, and is usable for every legal output location including the current directory and not yet existing directories.",
 ["schedules", "configurations", "inputs"],
 "all splits, schedules, 1D/2D/3D fields, scalar and vector fields in any order and number, data types, output paths",
 "The suite writes files from one process, into an existing directory, with one data type, and reads back only the dataset values.",
 ["pylbm/hdf5.py"],
 [("gather of sub-domains", "pylbm/hdf5.py _set_dset/_get_slice"), ("coordinates", "pylbm/hdf5.py set_grid"), ("xdmf description", "pylbm/hdf5.py save")],
 ["contents of the .h5 and .xdmf files"])

prop("C06", "A failed or interrupted save is never mistaken for a good one",
 "If any storage operation fails during an output, the failure is reported to the caller of the output operations instead of being ignored, and when no failure is reported the files are complete. If the process dies at any instant during a sequence of outputs, every output whose save had returned is intact, and a complete description file never exists for a data file that is incomplete.",
 ["crash_points", "fault_sequences", "histories"],
 "all points at which a write, create, close or directory operation fails (full disk, I/O error, short write) or the process is killed, in any sequence of saves",
 "No test injects an I/O error or a crash while saving.",
 ["pylbm/hdf5.py"],
 [("data file closed before the description is written", "pylbm/hdf5.py save"), ("one file per time step", "pylbm/hdf5.py __init__")],
 ["files on the simulated disk after each fault or crash"])

prop("C07", "A simulation always runs the kernels generated from its own description",
 "A newly built simulation executes code generated from its own description, whatever simulations were built before it in the same process, in earlier or crashed runs, or by the other processes of the same parallel run, also when they used the same code generation directory. Files left over in that directory, on the import path or in bytecode caches, build configurations of other projects in the current directory, and file time stamps that are coarse or jump backwards, never make it run other code or fail.",
 ["histories", "crash_points", "schedules", "fault_sequences"],
 "all sequences of constructions over shared or private directories, crash points of earlier runs, interleavings of processes sharing a directory, file clock behaviours, numpy and cython generators",
 "Each test builds one simulation in a fresh temporary directory with bytecode writing disabled, so nothing stale can exist.",
 ["pylbm/generator/autowrap.py", "pylbm/generator/codegen.py", "pylbm/generator/generator.py", "pylbm/simulation.py"],
 [("module loading", "pylbm/generator/autowrap.py wrap_code"), ("compilation", "pylbm/generator/autowrap.py CythonCodeWrapper"), ("code generation directory", "pylbm/simulation.py")],
 ["state after a few steps compared with a pristine build of the same description"])

prop("C08", "A failed kernel build is reported and leaves nothing behind",
 "If writing, compiling or loading the generated kernels fails at any point, constructing the simulation raises an error, and afterwards no temporary directory created by the build remains, the import path is what it was before, and a subsequent construction of the same or another simulation works normally. In a parallel run all the processes learn of it: none stays behind waiting for the one that failed. A successful build likewise leaves no temporary directory and no change of the import path.",
 ["fault_sequences", "crash_points", "histories"],
 "all single and multiple failures of the file, directory, compiler and import operations of a build, in any sequence of builds",
 "No test makes a build step fail.",
 ["pylbm/generator/autowrap.py", "pylbm/generator/codegen.py"],
 [("cleanup in the build wrapper", "pylbm/generator/autowrap.py wrap_code"), ("compiler errors", "pylbm/generator/autowrap.py _process_files")],
 ["exception, temporary directories, import path, next construction"])

prop("C09", "Kernels kept in a directory are reused exactly or refused",
 "A simulation told to reuse the kernels kept in a directory without regenerating them behaves exactly as the simulation that generated them. If the run that generated them was killed at any instant, the reuse either behaves like a complete earlier or current generation or fails with an error: it never silently computes with truncated kernels.",
 ["crash_points", "histories"],
 "all instants at which the generating run is killed, all buffer sizes and tear points of its last writes, with or without older kernels in the directory",
 "The reuse option is not exercised by any test, and no test kills a build.",
 ["pylbm/generator/autowrap.py", "pylbm/generator/codegen.py", "pylbm/simulation.py"],
 [("writing the generated source", "pylbm/generator/codegen.py CodeGen.write"), ("reuse", "pylbm/generator/autowrap.py wrap_code")],
 ["state after a few steps of the reusing simulation"])

prop("C10", "Monitoring accounts every call and every second exactly once",
 "For every nesting and sequence of monitored calls, including calls that raise, the number of calls recorded for each function is the number of calls completed or failed, its total time is the sum of the elapsed clock time of those calls, and self times partition the total of the outermost calls without overlap. A failed call never distorts what is recorded for other calls, and monitoring never changes a computed result.",
 ["histories", "fault_sequences", "schedules"],
 "all call trees over the monitored operations, all points where a call raises, all clock readings including coarse, zero-length and irregular ones",
 "No test looks at monitoring; it depends on a clock that a test does not control.",
 ["pylbm/monitoring.py", "pylbm/simulation.py"],
 [("timing tree", "pylbm/monitoring.py Monitoring.start_timing/stop_timing"), ("wrapper", "pylbm/monitoring.py monitor")],
 ["the monitoring report printed at exit"])

prop("C11", "A time step that fails in user code can be retried",
 "If a user-supplied function (a boundary value, a time dependent boundary value) raises during a time step, the step raises, time and step count do not advance, and the interior fields are still those of the previous step. Repeating the step once the function works gives exactly the trajectory of an execution in which it never failed.",
 ["fault_sequences", "histories"],
 "all steps and all invocations of the user functions that may raise, repeated failures, any number of processes when all fail alike",
 "No test lets a user function fail.",
 ["pylbm/simulation.py", "pylbm/boundary.py"],
 [("order of operations in a step", "pylbm/simulation.py one_time_step"), ("boundary update", "pylbm/boundary.py update_feq/update")],
 ["t, nt, m, F after the failure and after the retried run"])

prop("C12", "Looking at a simulation does not change it",
 "Reading moments, distributions, halos, time, the textual description or saving output, at any time, any number of times, by any subset of the processes (for reads), neither blocks nor communicates nor alters the later trajectory. Moments read at any time are those of the current distributions, also after the distributions were overwritten by the user.",
 ["histories", "schedules"],
 "all interleavings of steps with reads, user writes of the distributions and saves, with different reads on different processes",
 "Tests read the result once, at the end, on one process.",
 ["pylbm/simulation.py", "pylbm/storage.py", "pylbm/hdf5.py", "pylbm/algorithm/base.py"],
 [("lazy recomputation of the moments", "pylbm/simulation.py m/m_halo/F_halo"), ("interior views", "pylbm/storage.py Array._in")],
 ["fields of an observed and an unobserved run"])

prop("C13", "Simulations living in the same program do not influence each other",
 "Several simulations created and stepped in the same program in any interleaving, from separate or from shared description dictionaries, each follow the trajectory they follow when alone. The description given by the user is not modified.",
 ["histories", "schedules"],
 "all interleavings of construction, stepping, reading and destruction of several simulations, on one or several processes",
 "Each test holds one simulation at a time and never compares it with itself in other company.",
 ["pylbm/simulation.py", "pylbm/generator/autowrap.py", "pylbm/monitoring.py", "pylbm/scheme.py", "pylbm/boundary.py", "pylbm/container.py"],
 [("per-simulation generator module", "pylbm/generator/generator.py"), ("per-simulation storage", "pylbm/container.py")],
 ["fields of every simulation, the dictionaries after use"])

prop("C14", "Results are reproducible bit for bit",
 "For a given description and process grid, repeated executions give bitwise identical moments and distributions on every process. They do not depend on the order in which messages arrive or processes progress, on hash randomisation, on clock readings, on names of temporary directories or on what the process did before.",
 ["schedules", "configurations", "histories"],
 "all message and process schedules, hash seeds, clock values and temporary names",
 "The suite fixes the hash seed and compares with a tolerance; it never compares two executions.",
 ["pylbm/generator/codegen.py", "pylbm/scheme.py", "pylbm/stencil.py", "pylbm/storage.py", "pylbm/boundary.py"],
 [("ordering of velocities, labels and generated statements", "pylbm/stencil.py, pylbm/boundary.py, pylbm/generator/codegen.py")],
 ["bytes of Simulation.m and Simulation.F"])

prop("C15", "All processes share one time line and boundary values follow it",
 "At any step all processes report the same step count, time and time step, time equals the step count times the time step up to rounding, and a time dependent boundary value used in a step is the user's function evaluated at the time of the beginning of that step, on every process that owns boundary points with that label, at the positions where the boundary is crossed. Values of a constant boundary are evaluated once and never again.",
 ["schedules", "configurations", "histories"],
 "all splits, schedules, time dependent and constant boundary values on several labels",
 "One demo uses a time dependent value, on one process, and only its final field is compared.",
 ["pylbm/simulation.py", "pylbm/boundary.py"],
 [("time update", "pylbm/simulation.py one_time_step"), ("time dependent boundary values", "pylbm/boundary.py prepare_rhs/update_feq")],
 ["arguments received by the user's boundary functions on every rank"])

prop("C16", "A split that cannot be computed is refused, not computed wrongly",
 "If a process grid gives some process fewer points in a direction than the stencil reaches, or does not match the number of processes, the construction fails with an error on the processes concerned. It never delivers a simulation whose results differ from the serial ones.",
 ["configurations", "schedules"],
 "all pairs of grid size and process grid, including fewer points than processes and stencils reaching several points",
 "The suite never splits a domain.",
 ["pylbm/mpi_topology.py", "pylbm/domain.py", "pylbm/storage.py"],
 [("process grid", "pylbm/mpi_topology.py"), ("halo exchange with direct neighbours only", "pylbm/storage.py update")],
 ["exceptions at construction, fields after steps"])

prop("C17", "Every history of operations is that of the described lattice Boltzmann scheme",
 "For every valid description and every sequence of user operations (time steps, collisions alone, boundary updates, reads, overwritten distributions or moments), the moments, distributions, step count and time of the simulation, on any number of processes and in any schedule, are those of the scheme the description defines: transport along the velocities, the boundary methods with their values at the right place and time, half a step of the source terms, relaxation towards the equilibrium in the (possibly relative) moments, half a step of the source terms. This holds for every storage order, relaxation given as number or symbol, equilibrium given on the moments or the distributions, and each code generator.",
 ["histories", "configurations", "inputs", "schedules"],
 "all descriptions, all sequences of operations, all process grids and schedules",
 "The suite compares a few stationary or short runs with stored values of the library itself; a wrong result that is the same in serial and parallel runs is seen only against an independent model.",
 ["pylbm/simulation.py", "pylbm/algorithm/base.py", "pylbm/algorithm/pull.py", "pylbm/scheme.py", "pylbm/boundary.py", "pylbm/storage.py", "pylbm/generator/codegen.py", "pylbm/generator/ast.py", "pylbm/symbolic.py"],
 [("one time step", "pylbm/simulation.py one_time_step, pylbm/algorithm/pull.py"), ("boundary methods", "pylbm/boundary.py"), ("moment matrices", "pylbm/scheme.py _create_moments_matrices"), ("generated loops", "pylbm/generator")],
 ["Simulation.m, F, t, nt on every rank after every operation"])

prop("C18", "A computation resumed from its last complete output is the uninterrupted one",
 "If a job that writes its state (all distributions, or all moments) with H5File every few steps is killed or fails at any point, and a new job, on the same or another number of processes and with the same or another storage order, restores the state of the latest output whose description is complete and continues at its time, then every state it reaches is the one of the uninterrupted computation.",
 ["histories", "crash_points", "configurations", "schedules"],
 "all descriptions, intervals between outputs, crash points and storage faults, process grids before and after, ways of restoring the state",
 "The suite never restarts a computation, writes from several processes or interrupts an output.",
 ["pylbm/hdf5.py", "pylbm/simulation.py", "pylbm/storage.py", "pylbm/mpi_topology.py", "pylbm/boundary.py"],
 [("outputs", "pylbm/hdf5.py H5File.save"), ("state of a simulation", "pylbm/simulation.py F, m, F_halo, m_halo, t, nt"), ("order of the points of an output", "pylbm/hdf5.py add_scalar")],
 ["Simulation.F, t, nt of every life against the uninterrupted run"])

prop("C19", "A time step done phase by phase is the time step",
 "For every description, a step done by its documented phases (boundary_condition, transport, f2m, source terms, relaxation, source terms, m2f) on every process gives the moments and distributions of one_time_step, in any mixture with whole steps and on any number of processes. Reading moments or distributions between the phases shows the state after the last phase and changes nothing, and going to the moments and back leaves the distributions unchanged.",
 ["histories", "configurations", "schedules"],
 "all descriptions, all mixtures of whole steps, phases and reads, all process grids and schedules",
 "The suite only calls one_time_step.",
 ["pylbm/simulation.py", "pylbm/algorithm/base.py", "pylbm/algorithm/pull.py", "pylbm/container.py"],
 [("phases", "pylbm/simulation.py transport, f2m, relaxation, source_term, m2f, boundary_condition"), ("generated phases", "pylbm/algorithm/base.py"), ("arrays of the backends", "pylbm/container.py")],
 ["Simulation.m, F, t, nt on every rank after every phase"])

prop("C20", "An animated figure shows the data of its last updates",
 "Whatever the order in which the timer of an animation, redraws, resizes, the user's own updates and further time steps come, every curve, cloud of points, image and contour of a figure shows exactly the data given to its last update (or to its creation), once, and nothing computed after it. The update function of each animated figure is called by its own timer at the interval asked for, with successive frame numbers, as long as the figure lives and also after it has failed once. Figures never change the simulation or the arrays they are given.",
 ["histories", "schedules"],
 "all orders of timers, redraws, resizes, updates, steps and failures, all kinds of plots, several figures and processes",
 "The suite draws still images of domains and geometries; no animation ever runs and no plot is updated.",
 ["pylbm/viewer/matplotlib_viewer.py", "pylbm/simulation.py"],
 [("plots that can be updated", "pylbm/viewer/matplotlib_viewer.py CLine, CScatter, SImage, SContour, SScatter"), ("animation", "pylbm/viewer/matplotlib_viewer.py Fig.animate")],
 ["artists of the axes after every event of the interface"])

# --- pure functions of their input: stated, not claimed -------------------------------
prop("N01", "Velocity numbering and symmetry are consistent",
 "Every velocity number denotes one velocity in each dimension, the numbering is a bijection, and the symmetric of the symmetric is the velocity itself.",
 ["inputs"], "all velocity numbers and dimensions", "Tests sample a few stencils.",
 ["pylbm/stencil.py"], [("numbering", "pylbm/stencil.py Velocity")])
prop("N02", "Moments and distributions transform into each other",
 "For every family of independent polynomials the moment matrix times its computed inverse is the identity, also with a relative velocity, so that going to moments and back leaves the distributions unchanged.",
 ["inputs"], "all polynomial families, parameters and relative velocities", "Tests use a dozen schemes.",
 ["pylbm/scheme.py"], [("moment matrices", "pylbm/scheme.py _create_moments_matrices")])
prop("N03", "Generated kernels compute what the scheme describes",
 "For every scheme, backend and storage order the generated code evaluates the symbolic transport, relaxation, source and equilibrium formulas of the scheme.",
 ["programs", "inputs"], "all schemes, backends and storage orders", "Tests compare a dozen demos with stored references.",
 ["pylbm/algorithm/base.py", "pylbm/generator/codegen.py", "pylbm/generator/printing/pycode.py", "pylbm/generator/printing/cython.py"], [("code generation", "pylbm/generator")])
prop("N04", "Geometric elements answer inside and distance queries correctly",
 "For every element, point and direction the inside predicate, the distance to the border, its label and its normal agree with the geometry of the element.",
 ["inputs"], "all elements, points and directions", "Tests compare pictures of a few shapes.",
 ["pylbm/elements"], [("point_inside, distance", "pylbm/elements")])
prop("N05", "Equivalent equations are those of the scheme",
 "The first and second order equivalent equations reported for a scheme are the ones obtained by Taylor expansion of the scheme.",
 ["inputs"], "all schemes", "No test computes them independently.",
 ["pylbm/analysis/equivalent_equation.py"], [("expansion", "pylbm/analysis/equivalent_equation.py")])
prop("N06", "The stability analysis reports the true spectrum",
 "The eigenvalues and the stability verdict reported for a linearised scheme are those of its amplification matrix at every wave vector.",
 ["inputs"], "all schemes, states and wave vectors", "No test covers the module.",
 ["pylbm/analysis/stability.py"], [("amplification matrix", "pylbm/analysis/stability.py")])
prop("N07", "Invalid descriptions are rejected with the offending key",
 "Every description with a missing, misspelt or ill-typed entry is rejected with a message pointing at it, and every valid one is accepted.",
 ["inputs"], "all dictionaries", "Tests use valid dictionaries only.",
 ["pylbm/validator.py"], [("cerberus schema", "pylbm/validator.py")])
prop("N08", "Figures show the data they are given",
 "Domain, geometry, stencil and field figures place every marker, line and colour according to the data visualised.",
 ["inputs"], "all figures", "Image comparison on a handful of figures.",
 ["pylbm/viewer/matplotlib_viewer.py", "pylbm/domain.py"], [("drawing", "pylbm/viewer/matplotlib_viewer.py")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
