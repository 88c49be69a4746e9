#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a generator so that the file stays in step with the checks).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe or ["files under <output>/prof, <output>/vtu, <output>/csv", "exit status of mps"],
                     hook_needed=hook)))

ALLSTEP = ["src/mps.cpp", "src/neighbor_searcher.cpp", "src/bucket.cpp", "src/pressure_calculator/implicit.cpp",
           "src/pressure_calculator/explicit.cpp", "src/pressure_calculator/pressure_poisson_equation.cpp",
           "src/pressure_calculator/dirichlet_boundary_condition_generator/free_surface.cpp", "src/simulation.cpp"]

p("C01", "Results do not depend on threads or their interleaving",
  "When mps is built with OpenMP, the snapshot files and the exit status of a run are byte-identical for every number of threads and for every interleaving of the threads' memory accesses. Inside a parallel loop no two threads touch the same memory, one of them writing, without synchronisation.",
  ["schedules", "configurations", "inputs"], "every team size (also changing from loop to loop), every interleaving of the threads of every parallel loop, every input",
  "The unit tests are built without OpenMP and never run a time step; no schedule at all is exercised.",
  ALLSTEP, [("omp parallel for loops write only the particle they iterate over", "src/mps.cpp, src/neighbor_searcher.cpp"),
   ("order-dependent loops (bucket filling, collision, minimum pressure) are kept sequential", "src/bucket.cpp storeParticles, src/mps.cpp collision/setMinimumPressure")])
p("C02", "Results do not depend on wall clock or stale memory",
  "The snapshots written by a run, their number and the exit status are functions of the settings file and the particle file only. They are the same whatever the system clock does during the run (stalls, runs backwards, jumps by years) whatever bytes freshly obtained memory happens to contain and at whatever addresses it lies, from wherever and in whatever environment the run is called, and whatever other files are in the working directory, next to the input files or in the output directory (old snapshots of the same names are replaced as a whole, all other files are left alone).",
  ["schedules", "inputs", "fault_sequences"], "every sequence of clock readings, every initial content of heap and stack memory, every valid input",
  "Tests never run the simulation loop, read no clock, and see only the memory contents the allocator happens to give.",
  ["src/simulation.cpp", "src/mps.cpp", "src/loader.cpp", "src/particles_loader/prof.cpp", "src/particles_loader/csv.cpp", "src/particles_loader/vtu.cpp", "src/pressure_calculator/pressure_poisson_equation.cpp"],
  [("clock is read only for the progress report", "src/simulation.cpp run/timeStepReport"), ("members are initialised before use", "src/particle.hpp, src/simulation.cpp, src/mps.cpp")])
p("C03", "Partial and interrupted I/O is invisible in the results",
  "If reads and writes of files are split into arbitrarily small pieces, or a stream call is interrupted by a signal and has to be retried, a run behaves exactly as if they were not: same exit status, byte-identical snapshots and input copies.",
  ["fault_sequences", "inputs"], "every splitting of every read/write/copy call into shorter ones and every placement of EINTR on stream reads and writes",
  "Tests write and read tiny files on a local disk where no call is ever partial or interrupted.",
  ["src/particles_exporter.cpp", "src/saver.cpp", "src/loader.cpp", "src/particles_loader/prof.cpp", "src/particles_loader/csv.cpp", "src/particles_loader/vtu.cpp"],
  [("stream I/O through std::ofstream/std::ifstream, fs::copy_file and the csv reader", "src/particles_exporter.cpp, src/loader.cpp, src/particles_loader/")])
p("C04", "A failed write never passes for success",
  "If creating, writing or closing any output file or directory fails (disk full, quota, I/O error, permission, too many open files), mps terminates with a non-zero status. Equivalently, whenever mps exits with status 0, the output directory holds every snapshot and both input copies complete, with exactly the bytes a fault-free run would have written.",
  ["fault_sequences"], "every failing open/mkdir/write/close/copy call, transient or persistent, with every errno, at every position of the run",
  "Tests only check that a file exists after a successful write on a healthy disk; no call ever fails.",
  ["src/particles_exporter.cpp", "src/saver.cpp", "src/loader.cpp"],
  [("stream state checked after opening and after writing", "src/particles_exporter.cpp toProf/toVtuAscii/toVtuBinary/toCsv"), ("filesystem calls throw", "src/saver.cpp, src/loader.cpp")])
p("C05", "A failed read or allocation never yields wrong results",
  "If reading the settings or particle file fails part-way, or a memory allocation fails anywhere, the run either terminates with a non-zero status or produces exactly the fault-free results. Every snapshot completed before such a termination is byte-identical to the fault-free one.",
  ["fault_sequences"], "every failing open/read call of the input files and every failing memory allocation of the run",
  "No test lets a read or an allocation fail.",
  ["src/loader.cpp", "src/particles_loader/prof.cpp", "src/particles_loader/csv.cpp", "src/particles_loader/vtu.cpp", "src/saver.cpp", "src/particles_exporter.cpp", "src/mps.cpp"],
  [("stream state checked while loading", "src/particles_loader/"), ("bad_alloc and library exceptions are not swallowed", "src/main.cpp, src/loader.cpp"), ("in-memory stream state checked before its content is used", "src/particles_exporter.cpp toVtuBinary")])
p("C06", "A killed run leaves a clean prefix of its results",
  "If the process is killed at any instant, every snapshot except possibly the one being written is complete in all three formats and byte-identical to what the uninterrupted run writes, and no later-numbered snapshot exists. Snapshots that the console reported as written (the out= counter of a completed step line) are among the complete ones.",
  ["crash_points", "inputs"], "a kill at every system call and inside every write, for every input",
  "No test kills a process or looks at a half-written snapshot.",
  ["src/saver.cpp", "src/particles_exporter.cpp", "src/simulation.cpp"],
  [("files of one snapshot are written and closed one after another before the next step begins", "src/saver.cpp save"), ("report printed before the snapshot is counted", "src/simulation.cpp run")],
  observe=["output directory after the kill", "captured console"])
p("C07", "A run can be restarted from any complete snapshot",
  "Any complete prof, csv or ASCII vtu snapshot whose positions and velocities are finite is accepted as the particle file of a new run, which starts at the snapshot's time with the snapshot's particle types, positions, velocities (and fluid types for csv and vtu) to the printed precision, and with the default density. Its first snapshot reproduces the loaded one, restarting from any of the three formats of one snapshot leads to the same results, and a chain of kills and restarts ends at the same end time with every step obeying the same step rules as an uninterrupted run.",
  ["histories", "crash_points", "inputs"], "every kill point, every choice of snapshot and format to restart from, repeated restarts",
  "VtuTest loads one two-particle file and does not look at the density it got; prof and csv loading and restarting are untested.",
  ["src/particles_loader/prof.cpp", "src/particles_loader/csv.cpp", "src/particles_loader/vtu.cpp", "src/particles_exporter.cpp", "src/simulation.cpp", "src/loader.cpp"],
  [("start time read from the particle file", "src/particles_loader/, src/simulation.cpp constructor"), ("output formats are also input formats", "src/particles_exporter.cpp, docs/input-output.md")])
p("C08", "An incomplete particle file is never simulated",
  "If the particle file (prof, csv or ASCII vtu) ends before the data it declares is complete, for example because the run that wrote it was killed or its disk was full, mps terminates with a non-zero status and writes no snapshot. A binary (appended-data) vtu file is likewise refused.",
  ["crash_points", "fault_sequences", "inputs"], "every cut position before the last value of the file, every format, every read error position",
  "The only loader test uses one complete file.",
  ["src/particles_loader/prof.cpp", "src/particles_loader/csv.cpp", "src/particles_loader/vtu.cpp"],
  [("declared particle count compared with what was read", "src/particles_loader/prof.cpp, csv.cpp"), ("end tag and array lengths verified", "src/particles_loader/vtu.cpp")])
p("C09", "Incomplete or invalid settings are never simulated",
  "If the settings file is missing, unreadable, cut off before its last required entry, lacks a required entry, gives an entry a value of the wrong type, names an unknown pressure calculation method or a particle file that is missing or has an unsupported extension, gives a time step with which the time would not advance towards the end time, or gives an end time (or the particle file a start time) that is not a number, mps terminates with a non-zero status and writes no snapshot. Entries documented as optional take their default.",
  ["fault_sequences", "inputs", "crash_points"], "every cut position, every dropped or damaged entry, every failing open/read of the settings file, missing command-line arguments and directories",
  "No test loads a settings file.",
  ["src/loader.cpp", "src/mps_factory.cpp", "src/main.cpp"],
  [("yaml conversions throw on missing or ill-typed entries", "src/loader.cpp loadSettingYaml"), ("explicit checks with exit", "src/loader.cpp getParticlesLoader, src/mps_factory.cpp, src/main.cpp")])
p("C10", "The user's files are never altered or overwritten",
  "A run never modifies or removes its settings file or its particle file, and writes nothing outside the output directory. If the output directory already contains a file with the name of the settings file or of the particle file, mps terminates with a non-zero status and leaves every file that was there unchanged; otherwise byte-identical copies of both are in the output directory before the first snapshot appears.",
  ["histories", "crash_points", "fault_sequences"], "every kill point and failing call, every sequence of runs into the same or different output directories",
  "No test runs the loader's copying, let alone with faults or twice.",
  ["src/loader.cpp", "src/saver.cpp", "src/simulation.cpp", "src/main.cpp"],
  [("existence check and exclusive copy before any snapshot is written", "src/loader.cpp copyInputFileToOutputDirectory")])
p("C11", "Snapshot cadence, numbering and termination",
  "A run started at time T0 saves snapshot 0 (the initial state) at T0, advances by exactly dt per step, saves snapshot k at the first step whose elapsed time has reached k times the output period (at most one snapshot per step), numbers snapshots contiguously from 0, and stops at the first step whose time has reached the end time, with status 0. This holds for any number of steps, for restarted runs with T0 other than zero, and however the wall clock behaves.",
  ["histories", "inputs", "schedules"], "every start time, end time, dt and output period, over whole runs, under every clock behaviour",
  "The simulation loop has no test.",
  ["src/simulation.cpp", "src/saver.cpp"],
  [("loop and save condition", "src/simulation.cpp run/saveCondition"), ("file counter", "src/saver.cpp save")])
p("C12", "The three files of a snapshot describe the same state",
  "For every snapshot the prof, csv and vtu files list the same particles in the same order, with the same time, types, positions and velocities to the printed precision, and csv and vtu carry the same fluid types. The vtu file, ASCII or binary, is well formed: declared counts, array types, offsets and lengths match the data, there is one vertex cell per point, and the exported number density ratio equals number density divided by its reference value.",
  ["histories", "inputs", "configurations"], "every snapshot of every run in both vtu encodings",
  "Exporter tests only check that a file was created.",
  ["src/particles_exporter.cpp", "src/saver.cpp"],
  [("the same particle array exported three times", "src/saver.cpp save"), ("offsets taken from the appended stream", "src/particles_exporter.cpp toVtuBinary")])
p("C13", "Every time step follows the MPS scheme",
  "From the state of one step the next step's fluid velocities and positions result from gravity (vector or norm-and-angle form), viscosity over neighbours within the Laplacian radius, collisions below the collision distance with the given restitution, and the pressure gradient with minimum-pressure correction within the gradient radius, in that order, as documented and with the values given in the settings. This holds at every step of every run, 2D or 3D, under any thread schedule.",
  ["histories", "schedules", "inputs", "configurations"], "every reachable state of every run, all settings combinations, all schedules",
  "No unit test executes a time step; errors that need a multi-step history (collisions, particles leaving, second pressure phase) are out of their reach.",
  ALLSTEP + ["src/mps_factory.cpp", "src/loader.cpp", "src/weight.cpp", "src/refvalues.cpp"],
  [("stepForward", "src/mps.cpp"), ("gravity selection", "src/mps_factory.cpp"), ("settings mapping", "src/loader.cpp loadSettingYaml")])
p("C14", "Pressures are admissible at every step",
  "After every step all pressures are finite and non-negative. With the implicit method they are zero on free-surface, dummy-wall and ghost particles and elsewhere equal the solution of the documented pressure Poisson equation with negative values cut to zero; with the explicit method they follow the equation of state from sound speed, density and number density. If the equation cannot be solved the run terminates with a non-zero status instead of continuing.",
  ["histories", "schedules", "inputs"], "every step of every run, both methods, all schedules",
  "No test links the pressure calculators.",
  ["src/pressure_calculator/implicit.cpp", "src/pressure_calculator/explicit.cpp", "src/pressure_calculator/pressure_poisson_equation.cpp", "src/pressure_calculator/dirichlet_boundary_condition_generator/free_surface.cpp", "src/mps.cpp"],
  [("matrix and source assembly", "src/pressure_calculator/pressure_poisson_equation.cpp"), ("negative pressure removal", "src/pressure_calculator/implicit.cpp"), ("solver status check", "src/pressure_calculator/pressure_poisson_equation.cpp solve")])
p("C15", "Particle identity is kept and only fluid moves",
  "The number of particles, their order and their fluid types never change during a run, and no particle's type ever changes except to ghost. Wall, dummy-wall and ghost particles keep their position and velocity bit for bit at every step, also when fluid collides with a wall.",
  ["histories", "schedules", "inputs"], "every step of every run and every chain of restarts, all schedules",
  "No test executes a time step.",
  ["src/mps.cpp", "src/particle.cpp", "src/bucket.cpp", "src/particles.cpp"],
  [("type tests in every loop; infinite mass of walls in collisions", "src/mps.cpp, src/particle.cpp inverseDensity")])
p("C16", "A particle that leaves the domain is retired, safely",
  "A particle found outside the domain (including one whose position is no longer a number) becomes a ghost: from then on it stays where it is with its velocity unchanged, stays a ghost, and has zero number density and pressure after the next step, and it no longer influences any other particle. The run goes on without any out-of-range memory access, whatever particles do at or beyond the domain's borders and however large the domain is (one too large for the neighbour search is refused), and particles inside the domain or exactly on its border are never retired.",
  ["histories", "inputs", "schedules"], "every way of leaving the domain, borders hit exactly, coincident particles, all particles gone, all schedules",
  "The neighbour-search test uses only particles inside a 2D domain and no time step.",
  ["src/bucket.cpp", "src/neighbor_searcher.cpp", "src/mps.cpp", "src/pressure_calculator/explicit.cpp", "src/pressure_calculator/dirichlet_boundary_condition_generator/free_surface.cpp"],
  [("domain test before bucket index computation", "src/bucket.cpp storeParticles"), ("ghost checks", "src/neighbor_searcher.cpp, src/mps.cpp")])
p("C17", "Number density and surface class match a full pair search",
  "At every step each particle's number density equals the sum of the kernel over all other non-ghost particles within the effective radius, as an exhaustive pair search finds them (ghosts have zero). With the implicit method each particle's boundary condition follows from it: ignored for ghosts and dummy walls, free surface if the number density is below the threshold times the reference value (and, when the distribution criterion is on, the neighbours are one-sided), inner otherwise.",
  ["histories", "schedules", "inputs"], "every step of every run, 2D and 3D, any radii, any particle arrangement relative to the search grid, all schedules",
  "The neighbour-search test checks one random 2D set of 100 particles once, never after particles moved or left, and never the density or the surface detectors.",
  ["src/neighbor_searcher.cpp", "src/bucket.cpp", "src/mps.cpp", "src/surface_detector/number_density.cpp", "src/surface_detector/distribution.cpp", "src/refvalues.cpp", "src/weight.cpp"],
  [("grid search over 27 cells", "src/neighbor_searcher.cpp"), ("kernel sum", "src/mps.cpp calNumberDensity"), ("surface detectors", "src/surface_detector/")])
p("C18", "Console reports are truthful",
  "For every step, standard output reports the step number, simulated time, end time, number of snapshots written so far and the maximum Courant number of the fluid, and standard error reports the step and time, in order and without omission. A Courant number above the CFL condition is reported as an error on standard error in exactly those steps where it occurs, and each particle leaving the domain is warned about once, with the position at which it left. Elapsed time, average and last step time, and the estimate of the time remaining are those of the clock and agree with one another, whatever the clock does.",
  ["histories", "schedules", "inputs"], "every step of every run under every clock behaviour",
  "No test reads the console output.",
  ["src/simulation.cpp", "src/mps.cpp", "src/bucket.cpp", "src/saver.cpp"],
  [("timeStepReport", "src/simulation.cpp"), ("calCourant", "src/mps.cpp"), ("out-of-domain warning", "src/bucket.cpp")],
  observe=["standard output", "standard error", "snapshots"])
p("C19", "Generators overwrite only with consent and always end",
  "A particle generator that finds one of its target files already there changes none of them unless the user answers y or Y; after n or N, or when standard input ends or fails without such an answer, it ends within a bounded number of steps and leaves every existing file unchanged. Other answers only repeat the question, whatever sizes the input arrives in.",
  ["fault_sequences", "histories", "inputs"], "every answer sequence, end of input or read error at every point, every splitting of the input",
  "The generators have no tests.",
  ["generator/generator_src/generator_dialogue.cpp", "generator/generate_dambreak.cpp", "generator/generate_hydrostatic.cpp"],
  [("question loop", "generator/generator_src/generator_dialogue.cpp")],
  observe=["input/<case>/input.* under the working directory", "exit status", "standard output"])
p("C20", "Generated input is complete, consistent and usable",
  "A generator that exits with status 0 after exporting has written a complete prof and a complete vtu file that describe the same particles, no two of them in one place, at time 0, identical from run to run; mps accepts either and starts from exactly these particles. If writing fails at any point the generator exits with a non-zero status.",
  ["fault_sequences", "crash_points", "histories"], "every failing create/write/close call, every kill point followed by a new run, partial and interrupted writes",
  "The generators have no tests, and no test lets a write fail.",
  ["generator/generator_src/generator_dialogue.cpp", "generator/generate_dambreak.cpp", "generator/generate_hydrostatic.cpp", "src/particles_exporter.cpp"],
  [("export through the same exporter as mps", "generator/generator_src/generator_dialogue.cpp")],
  observe=["input/<case>/input.* under the working directory", "exit status"])
p("C21", "A run starts from exactly what the input files say",
  "Whatever the format (prof; csv with its columns in any order and with or without the optional fluid type and density columns; ASCII vtu), the initial state has every particle of the file once, in file order, with the file's start time, types, positions, velocities, and, where given, fluid types and densities; particles without a density (or with a negative one) get the default density. The particle file is located relative to the settings file, whatever the working directory, and however the bytes arrive from the disk.",
  ["inputs", "fault_sequences", "configurations"], "every valid input file in every format, every splitting of its reads, any working directory and relative or absolute arguments",
  "One two-particle vtu file is tested; prof and csv loaders and path resolution are not.",
  ["src/particles_loader/prof.cpp", "src/particles_loader/csv.cpp", "src/particles_loader/vtu.cpp", "src/loader.cpp", "src/mps.cpp"],
  [("loaders", "src/particles_loader/"), ("path resolution", "src/loader.cpp loadSettingYaml")])
p("C22", "Momentum is exchanged, never created",
  "In a cloud of fluid particles of one density without walls and without pressure forces, viscosity and collisions leave the total momentum unchanged and never increase the kinetic energy in the frame of the centre of mass, so the cloud's mean velocity changes only by gravity times time, over any number of steps, restarts and thread schedules. Likewise the centre of mass moves only with the mean velocity.",
  ["histories", "schedules", "inputs"], "every initial cloud, any number of steps and collisions, any schedule and restart chain",
  "No test executes a time step, let alone a long history of collisions.",
  ["src/mps.cpp", "src/particle.cpp"],
  [("equal and opposite impulses", "src/mps.cpp collision"), ("antisymmetric viscosity", "src/mps.cpp calViscosity"), ("gravity added once per step", "src/mps.cpp calGravity")])
# --- not simulation targets ---
p("C23", "Kernel and reference values equal their definitions",
  "The kernel is re/r - 1 inside the effective radius and 0 outside, and the reference number density and lambda equal the sums over the regular lattice of the given dimension.",
  ["inputs"], "all distances, radii, spacings and dimensions", "Tests check three distances and one radius ratio.",
  ["src/weight.cpp", "src/refvalues.cpp"], [("closed formula and lattice sum", "src/weight.cpp, src/refvalues.cpp")], observe=["return values"])
p("C24", "Physical accuracy of the method",
  "The hydrostatic case settles to the hydrostatic pressure profile and the dam break front follows experiments within the accuracy known for the method.",
  ["inputs"], "the physical cases the program is used for", "CI only uploads a picture and asserts nothing.",
  ["src/mps.cpp", "input/hydrostatic/settings.yml", "input/dambreak/settings.yml"], [("numerical scheme", "src/mps.cpp")], observe=["vtu pressure field"])
p("C25", "prof_to_csv keeps every particle or fails",
  "A csv file that prof_to_csv.sh makes from a prof file written by mps, with or without its final newline, holds the same time and the same particles in the same order, and mps starts from it in exactly the same state as from the prof file. When the input cannot be read or the output cannot be written completely, the script ends with a non-zero status. It touches no other file, whatever the paths and the working directory.",
  ["inputs", "fault_sequences", "crash_points"], "every prof file, every path and working directory, every failing command, every position at which the disk is full, kills",
  "The script has no test.",
  ["scripts/prof_to_csv.sh", "src/particles_loader/csv.cpp"], [("line by line conversion", "scripts/prof_to_csv.sh")], observe=["converted file", "exit status", "runs of mps from it"])
p("C26", "Concurrent runs never share an output directory",
  "When several mps processes run at the same time with one output directory, at most one of them simulates into it and, without faults, exactly one; the others end with a non-zero status without changing anything, and the winner's files are those of a run alone. Runs with different output directories do not influence one another, even when they read the same input files.",
  ["schedules", "fault_sequences", "crash_points"], "every interleaving of the file operations of several processes, kills and failing calls at every point",
  "Tests run one process and never the program itself.",
  ["src/simulation.cpp", "src/loader.cpp", "src/saver.cpp", "src/arguments_loader.cpp"],
  [("exclusive creation of the settings copy", "src/loader.cpp"), ("output directory checks", "src/simulation.cpp")], observe=["files under all output directories", "exit status of each process"])
p("C27", "Memory and open files do not grow with the length of a run",
  "The heap memory and the number of files a run holds at once do not depend on how many steps it makes and how many snapshots it writes: a run of many steps completes within the memory and file limits in which a short run of the same case completes, with the same snapshots as without limits.",
  ["histories", "inputs", "fault_sequences"], "every case and any number of steps and snapshots, under limits on heap memory and on open files",
  "Tests execute no time step and write no second snapshot.",
  ["src/simulation.cpp", "src/mps.cpp", "src/neighbor_searcher.cpp", "src/bucket.cpp", "src/pressure_calculator/implicit.cpp", "src/saver.cpp", "src/particles_exporter.cpp", "src/pressure_calculator/pressure_poisson_equation.cpp"],
  [("neighbour lists, buckets and coefficient lists are cleared every step", "src/neighbor_searcher.cpp, src/bucket.cpp, src/pressure_calculator/pressure_poisson_equation.cpp"), ("exporter streams close at scope end", "src/particles_exporter.cpp")],
  observe=["exit status", "snapshots", "heap blocks and descriptors in use"])
p("C28", "The runner scripts lose no results and hide no failure",
  "From every working directory and checkout path runner.sh and safe_runner.sh act only on the result directory of their own repository, and safe_runner.sh never sends a simulation into a directory that an earlier or concurrent run made, whatever the clock shows. They run the simulation once with the settings of the requested project, and exit with 0 only if it ended with 0 and console.log and error.log hold its complete output.",
  ["histories", "schedules", "fault_sequences", "crash_points", "configurations"], "every history and interleaving of invocations, every clock, every failing command, full disks, kills and failing simulations",
  "The scripts have no test.",
  ["scripts/runner.sh", "scripts/safe_runner.sh"],
  [("change to the repository's directory", "scripts/runner.sh, scripts/safe_runner.sh"), ("directory named after the time and made exclusively", "scripts/safe_runner.sh"), ("pipeline through tee", "scripts/runner.sh, scripts/safe_runner.sh")],
  observe=["files under the repository and the working directory", "exit status of the script", "how build/mps is called"])
p("C29", "Trouble with the console never alters the results",
  "What a run or a generator writes to its output directory does not depend on whether its messages arrive: if standard output, standard error or both cannot be written for a while or for good (closed terminal, broken pipe, full disk behind a log file, I/O error), are interrupted or block for long, the files it leaves are those it leaves with a working console, a refused input is still refused, and consent is asked for and obeyed as before. If the broken pipe ends the process, a clean prefix of the results is left.",
  ["fault_sequences", "crash_points", "histories"], "every console write failing or blocking, once or for good, in one stream or both, with every error",
  "Tests never write to a failing console, and never run the program.",
  ["src/simulation.cpp", "src/mps.cpp", "src/bucket.cpp", "src/main.cpp", "generator/generator_src/generator_dialogue.cpp"],
  [("results of printf and of the streams' state are not used for anything", "src/simulation.cpp, src/mps.cpp, src/bucket.cpp"), ("prompts of the generators", "generator/generator_src/generator_dialogue.cpp")],
  observe=["files under the output directory", "exit status"])
p("C30", "Extreme numbers never corrupt memory, hang or mislead a run",
  "Whatever numbers the settings and the particle file hold (zero, negative, huge, tiny, infinite or not a number; dimensions and particle types out of range; domains without extent or turned round; start times far away), a run either ends with a non-zero status or completes after the number of steps that its start time, time step and end time call for, whatever the output period. It never touches memory outside its data, never hangs and never depends on what memory happened to hold, and every complete snapshot it leaves is well formed and has every particle of the input, in order, with its fluid type and with its type or marked as a ghost.",
  ["inputs", "schedules", "fault_sequences"], "every number in either file replaced by any other, alone and together, under any contents and placement of memory",
  "Tests use a handful of moderate numbers and never run a simulation.",
  ["src/loader.cpp", "src/particles_loader/prof.cpp", "src/particles_loader/csv.cpp", "src/particles_loader/vtu.cpp", "src/bucket.cpp", "src/neighbor_searcher.cpp", "src/simulation.cpp", "src/particles_exporter.cpp", "src/mps.cpp"],
  [("refusals before the first snapshot", "src/loader.cpp checkTimeAdvances, src/bucket.cpp Bucket"), ("positions that are not in the domain, or not a number, become ghosts", "src/bucket.cpp storeParticles"), ("loop over the time", "src/simulation.cpp run, saveCondition"), ("texts of any length", "src/particles_exporter.cpp, src/simulation.cpp timeStepReport")])
p("C31", "The copies of a run's inputs reproduce it, whatever is edited meanwhile",
  "The settings file and the particle file that a run leaves in its output directory are what it simulated: running mps again from these two copies gives the same snapshots, bit for bit, and ends alike, no matter whether somebody replaced, removed, renamed, rewrote or cut the input files at any moment of the run; otherwise the run ends with a non-zero status before its first snapshot. A run whose input files are replaced as a whole simulates one whole version of each, never a mixture. Once its first snapshot has been begun, editing or removing the input files or the copies changes nothing in the snapshots, and editing the input files changes nothing in the copies.",
  ["schedules", "histories"], "an edit of either file between any two I/O operations of the run",
  "Tests never run a simulation, let alone edit its input meanwhile.",
  ["src/loader.cpp", "src/simulation.cpp", "src/particles_loader/prof.cpp", "src/particles_loader/csv.cpp", "src/particles_loader/vtu.cpp"],
  [("what is simulated is loaded from the copy; the settings are compared with their copy", "src/loader.cpp load"), ("copies are made by content", "src/loader.cpp copyInputFileToOutputDirectory"), ("nothing is read again later", "src/simulation.cpp Simulation, run")])
p("C32", "What a run leaves does not depend on the history of runs before it",
  "Whatever runs were made before in a file system (completed, refused, failed, killed at any point, restarted from each other's whole or broken snapshots, into new output directories or ones used before), a run ends as it would with the same settings file and particle file in an empty place and writes exactly the files it would write there, and every other file stays as it was. Where a copy of an earlier input with the same name is still in the output directory, it is refused and changes no file. If the run itself fails or is killed, only the snapshot being written may be neither as before nor as it would be in an empty place, and no later one is touched.",
  ["histories", "crash_points", "fault_sequences"], "every history of runs, kills, failures and restarts that share directories",
  "Tests never run the program twice in one place.",
  ["src/loader.cpp", "src/saver.cpp", "src/simulation.cpp", "src/particles_exporter.cpp", "src/main.cpp"],
  [("refusal of used directories", "src/loader.cpp copyInputFileToOutputDirectory, checkNotInSnapshotDirectory"), ("numbering starts at 0 and files are replaced as a whole", "src/saver.cpp, src/particles_exporter.cpp"), ("no state outside of the process but these files", "src/simulation.cpp")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
