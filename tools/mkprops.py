"""Writes /verif/properties.jsonl. Run by hand when a property changes."""
import json
T = "Existing tests evaluate one shipped mechanism (alpha-pinene) at one state and compare with arrays stored from an earlier run of the same code; "
P = []


def prop(id, title, statement, over, text, why, files, mech, state, observe, hook="none"):
    assert len(title) <= 80, (id, len(title))
    assert statement.count('. ') <= 2, id
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=state)], observe_at=[observe], hook_needed=None if hook == 'none' else hook)))


PE = "Parse_eqn_file.py"
prop("C01", "Numba gas model: dy/dt is the mass-action law of the mechanism file",
     "For every mechanism file in the supported KPP format and every call the ODE solver makes, the gas phase right-hand side of the default (Numba) model equals the mass-action law of that file: the rate of a reaction is its rate coefficient times every reactant concentration raised to its total stoichiometry, and each species changes by the summed products minus the summed reactants of all reactions. Stoichiometric prefixes, species listed more than once in a reaction or on both of its sides, empty product lists and reactions spread over several lines all count at face value; only the light marker hv is dropped, and the bath species (air, O2, water) are held constant.",
     ["inputs", "histories"], "all mechanisms, all concentrations, all orders of solver calls (first steps, retries, rejected steps, later batches)",
     T + "no test varies the mechanism, and none has a reaction with a repeated species, a prefix or a species on both sides.",
     [PE, "ODE_solver.py", "Gas_simulation.py"],
     [("parse reactions and stoichiometry", PE + " extract_mechanism"), ("generated reactant products", PE + " write_reactants_indices"), ("generated loss/gain sums", PE + " write_loss_gain_matrix"), ("RHS handed to the solver", "ODE_solver.py run_simulation.dydt_func")],
     "stoichiometry dictionaries, generated Numba modules, solution vector", "value returned by the RHS callback the solver receives")
prop("C02", "Fortran gas model: dy/dt is the mass-action law of the mechanism file",
     "For every mechanism file in the supported KPP format and every call the ODE solver makes, the right-hand side of the Fortran (f2py) gas model equals the mass-action law of that file, with the same meaning of stoichiometric prefixes, repeated species, species on both sides, empty product lists and held-constant bath species as in the default model. This is so for the serial and for the OpenMP form of the generated code.",
     ["inputs", "histories", "configurations"], "all mechanisms, concentrations, orders of solver calls, OpenMP flag on and off, team sizes",
     T + "no test varies the mechanism or turns OpenMP on.",
     [PE, "f2py/ODE_solver.py", "f2py/Gas_simulation_f2py.py", "rate_coeff_conversion.py"],
     [("generated reactant products", PE + " write_reactants_indices_fortran"), ("generated loss/gain sums", PE + " write_loss_gain_fortran"), ("RHS handed to the solver", "f2py/ODE_solver.py run_simulation.dydt_func")],
     "generated Fortran sources and their compiled modules, solution vector", "value returned by the RHS callback the solver receives")
prop("C03", "Jacobian callbacks equal the derivative of the RHS at fixed rate coefficients",
     "At every state at which the solver asks for it, in any order relative to the right-hand side calls, the Jacobian that the gas models (Numba and Fortran) give the solver equals the analytic derivative of the mass-action right-hand side with respect to the concentrations, at the rate coefficients of that time and peroxy radical total held fixed. Row and column of an entry are the changed and the differentiated species, entries without a dependence are zero, and all stoichiometric coefficients are included.",
     ["inputs", "histories"], "all mechanisms, states, times and solver call orders, both gas back ends",
     T + "the Jacobian is compared only with its own stored value, at one state of one mechanism without prefixes or repeated species.",
     [PE, "ODE_solver.py", "f2py/ODE_solver.py"],
     [("generated Numba Jacobian", PE + " write_gas_jacobian_numba"), ("generated Fortran Jacobian", PE + " write_gas_jacobian_fortran"), ("Jacobian handed to the solver", "ODE_solver.py run_simulation.jac, f2py/ODE_solver.py run_simulation.jacobian")],
     "generated Jacobian modules", "matrix returned by the Jacobian callback the solver receives")
prop("C04", "Rate coefficients equal the MCM expression in the file, in both languages",
     "For every rate expression the Master Chemical Mechanism format allows (Fortran literals with E or D exponents, powers including negative ones, exponential, logarithm, square root and absolute value calls, photolysis references, named MCM constants, M, N2, O2, H2O, RO2 and TEMP), the coefficient used in the simulation at a given temperature, humidity, time and peroxy radical total equals the value of that expression under the MCM definitions of its constants. The Numba and the Fortran model agree on it.",
     ["inputs", "configurations", "histories"], "all expressions of the grammar, temperatures, humidities, times of day, RO2 totals, both gas back ends and the aerosol model",
     T + "tests compare the rates of one mechanism at one temperature and time with stored values, so a conversion that goes wrong only for another expression form or temperature is not seen.",
     ["rate_coeff_conversion.py", PE],
     [("conversion to Numba", "rate_coeff_conversion.py convert_rate_mcm_numba"), ("conversion to Fortran", "rate_coeff_conversion.py convert_rate_mcm_fortran"), ("MCM constants and photolysis rates", PE + " write_rate_file_numba, write_rate_file_fortran")],
     "converted expressions, generated rate modules", "production of probe species with one source reaction each, through the RHS callback")
prop("C05", "Photolysis follows the simulated time of day, through all batches and days",
     "Whenever the solver evaluates the model at a simulated instant, photolysis uses the time of day given by the start hour plus all time simulated so far plus the offset within the current batch. It therefore does not restart with a batch, does not depend on the batch length or on the order of solver calls, is zero at night, and repeats with a period of one day.",
     ["histories", "schedules", "configurations"], "all start hours, batch lengths, numbers of batches and days, orders of solver calls including rejected steps, wall clock of the machine",
     "No test runs a simulation: the batch loop and its clock are never executed by the test suite.",
     ["ODE_solver.py", "f2py/ODE_solver.py", "Aerosol/f2py/ODE_solver.py", PE],
     [("time of day in the RHS and Jacobian", "run_simulation.dydt_func / jac in the three ODE_solver.py files"), ("zenith angle", PE + " write_rate_file_numba, write_rate_file_fortran")],
     "start time, time simulated in earlier batches, solver time", "RHS and Jacobian callbacks of photolysis probe reactions at every batch")
prop("C06", "The batched run covers the requested time and chains its batches exactly",
     "A run of the gas or aerosol models records one state per batch until the requested simulation time is covered, no more and no fewer, for any ratio of simulation time to batch length. The first batch starts from the configured concentrations (ppb converted, all others zero), every later batch starts from exactly the last accepted state of the one before, the recorded row of a batch is that batch's last accepted state, and the reported time of a row is the time simulated up to it.",
     ["histories", "configurations", "inputs"], "all simulation times, batch lengths (also such that do not divide, or that are inexact in binary), solvers that accept any number of internal steps",
     "No test runs a simulation, and the ratio of times matters only in rounding corner cases.",
     ["ODE_solver.py", "f2py/ODE_solver.py", "Aerosol/f2py/ODE_solver.py", "Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py"],
     [("batch loop", "run_simulation in the four solver files"), ("initial state", "run_simulation: y0 from species_initial_conc")],
     "y0, batch counter, total time, output matrix", "states handed to and returned by the solver; returned and saved matrices")
prop("C07", "The RO2 total is the sum over exactly the MCM peroxy radicals present",
     "In every gas and aerosol run the peroxy radical total that rate coefficients see is the sum of the current concentrations of exactly those species of the mechanism that belong to the MCM list of peroxy radicals, whatever the order in which species appear in the file, and zero if there are none. It follows the solution vector at every call and never includes other species or condensed amounts.",
     ["inputs", "histories"], "all mechanisms (any subset and order of the 1228 listed names, and none), all states",
     T + "only the RO2 indices of the alpha-pinene mechanism are compared.",
     [PE, "ODE_solver.py", "f2py/ODE_solver.py", "Aerosol/f2py/ODE_solver.py"],
     [("list of names and index file", PE + " write_RO2_indices"), ("sum in the RHS", "run_simulation.dydt_func")],
     "index file on disk, solution vector", "production of probe species whose rate is proportional to RO2")
prop("C08", "RHS and Jacobian are pure functions of time and state within a batch",
     "Within a batch, what the model returns for a time and a state depends on nothing else: not on earlier calls, retries, rejected trial steps or interleaved Jacobian calls. It does not modify the state array it is given, and an array it returned earlier is not changed by a later call.",
     ["schedules", "histories"], "all orders and repetitions of solver calls, reused and overwritten argument buffers, gas and aerosol models",
     "Tests call each generated function once, from a fresh process; state carried from call to call cannot show.",
     ["ODE_solver.py", "f2py/ODE_solver.py", "Aerosol/f2py/ODE_solver.py", "Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py", PE],
     [("RHS and Jacobian callbacks", "run_simulation.dydt_func, jac in the solver files"), ("work arrays passed to generated code", "ODE_solver.py")],
     "work arrays, function attributes, module globals", "repeated and permuted calls of the callbacks the solver receives")
prop("C09", "Simulated trajectories conserve mass, stay non-negative, ignore batching",
     "Integrated with an accurate solver, a gas phase run conserves every linear combination of species that each reaction conserves, keeps concentrations non-negative up to the solver tolerance, and reaches the same state whether the time is split into few or many batches. With all rate coefficients zero the state does not change.",
     ["inputs", "histories", "configurations"], "all mechanisms, initial mixtures, batch lengths dividing the same time, both gas back ends, across sunrise and sunset",
     "No test integrates the equations.",
     ["ODE_solver.py", "f2py/ODE_solver.py", PE],
     [("whole gas model", "Gas_simulation.py, f2py/Gas_simulation_f2py.py with run_simulation")],
     "solution vector through all batches", "recorded matrix of a run with an accurate reference integrator behind the solver interface")
prop("C10", "Regenerating a model uses the new mechanism, whatever an earlier run left",
     "A run asked to parse its mechanism again behaves as on a clean checkout, whatever files earlier runs or other mechanisms left in the working folder: old generated sources, byte-compiled or cached compiled modules, saved dictionaries, outputs. This holds also when the file system clock is coarse, stands still or goes backwards between the runs.",
     ["histories", "configurations", "fault_sequences"], "all sequences of runs with different mechanisms and settings, file sizes and time stamps, machine clocks",
     "Tests run once in a prepared folder; staleness needs at least two runs with coinciding stamps or sizes.",
     ["Gas_simulation.py", "f2py/Gas_simulation_f2py.py", "Aerosol/f2py/Aerosol_simulation_f2py.py", "ODE_solver.py"],
     [("cleanup before parsing", "front end scripts, files_exist is False branch"), ("import of generated modules", "run_simulation")],
     "working folder, __pycache__, generated modules", "behaviour of the second run compared with the reference model of its own mechanism and with a run in a clean folder")
prop("C11", "Resuming from saved files gives the same simulation as parsing afresh",
     "Running a model again with the option to reuse the files of an earlier run of the same mechanism, in a new process, gives the same species order, equations, initial state, derivatives, states and saved results as the run that parsed the mechanism. This holds also with other start hours, initial concentrations, durations and batch lengths than in the first run; for the gas models also with another temperature and humidity (the particle set-up is fixed when the aerosol code is generated).",
     ["histories", "configurations"], "all mechanisms and settings; gas (both back ends) and aerosol front ends; any number of resumed runs",
     "No test runs a front end, and the resume branch is never executed.",
     ["Gas_simulation.py", "f2py/Gas_simulation_f2py.py", "Aerosol/f2py/Aerosol_simulation_f2py.py", "ODE_solver.py", "f2py/ODE_solver.py"],
     [("save after parsing", "pickle.dump of dictionaries in the front ends"), ("reload", "files_exist branch of the front ends")],
     "pickled dictionaries, index file, generated modules", "everything the resumed run hands to the solver and records")
prop("C12", "A run killed at any point is fully repaired by the next parsing run",
     "If a run is killed, or the machine loses power, at any disk operation, the next run that parses its mechanism gives exactly the results of a run in a clean folder. No partial, torn, missing or stale file that the interrupted run left behind changes a result or makes that run fail.",
     ["crash_points", "fault_sequences", "histories"], "every disk operation of a run as the point of death, with any un-synced data lost, torn or zeroed; repeated crashes; same or another mechanism afterwards",
     "Tests never interrupt a run.",
     ["Gas_simulation.py", "f2py/Gas_simulation_f2py.py", "Aerosol/f2py/Aerosol_simulation_f2py.py", PE],
     [("cleanup before parsing", "front end scripts"), ("writing of generated files", PE + " write_* functions")],
     "all files in the working folder", "results of the run after the crash against those of a clean run")
prop("C13", "Saved result files hold exactly the simulated results and the right names",
     "When a run that saves its results ends normally, the saved files hold exactly the states, times, particle mass and sizes it computed, one row per batch, with no loss, reordering or truncation, and the table of names maps every species to its column. A file that an earlier run saved under the same name is replaced completely.",
     ["histories", "inputs", "fault_sequences"], "all mechanisms, run lengths, leftovers of earlier saves; gas and aerosol models; disks that write short or slowly",
     "No test runs a simulation with saving on.",
     ["ODE_solver.py", "f2py/ODE_solver.py", "Aerosol/f2py/ODE_solver.py", "Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py"],
     [("saving", "run_simulation: numpy.save, to_csv, csv.writer, pickle.dump")],
     "output files", "files on the simulated disk after the run against the states exchanged with the solver")
prop("C14", "A failed disk, compiler or solver operation is never passed off as success",
     "If an operation the results depend on fails during a run - a disk error or full disk while files are generated or results saved, a failing compilation of generated code, a solver that gives up - the run ends with an error instead of finishing normally. It never goes on with missing, partial or older files or modules, so that a run which ends normally has correct and completely saved results.",
     ["fault_sequences", "crash_points"], "every disk operation failing with any error or writing short, every compilation failing (with or without an older module present), solver failure in any batch",
     "Tests run without faults.",
     ["Gas_simulation.py", "f2py/Gas_simulation_f2py.py", "Aerosol/f2py/Aerosol_simulation_f2py.py", "Aerosol/f2py/Fixed_yield/Aerosol_sim_fixed_yield.py", PE, "ODE_solver.py", "f2py/ODE_solver.py", "Aerosol/f2py/ODE_solver.py"],
     [("compilation of generated code", "os.system f2py calls in the front ends"), ("writing of generated files and results", PE + " write_*, run_simulation")],
     "files being written, exit status of the compiler, solver errors", "how the run ends under an injected failure, and what is on disk then")
prop("C15", "OpenMP gas code gives the serial result under every thread schedule",
     "With OpenMP turned on, the generated Fortran code for rate coefficients, reactant products, loss and gain and the Jacobian returns the values of the serial code, for every number of threads and every interleaving of them.",
     ["schedules", "inputs", "configurations"], "all thread interleavings at shared memory accesses, team sizes, mechanisms, states",
     T + "OpenMP is never turned on in the tests, and real threads would show one schedule.",
     [PE], [("OpenMP regions in generated gas code", PE + " write_rate_file_fortran, write_reactants_indices_fortran, write_loss_gain_fortran, write_gas_jacobian_fortran")],
     "shared and private variables of the parallel regions", "outputs of the compiled routines under the simulated OpenMP runtime", "none (generated code is compiled with memory access callbacks)")
prop("C16", "Gas-to-particle code gives the serial result under every thread schedule",
     "The generated code for gas-to-particle partitioning, which divides the size bins among OpenMP threads, returns the derivative, particle mass, water activity and sizes of the serial code for every number of threads, division of bins and interleaving. This holds for the variant with all and the one with selected condensing species.",
     ["schedules", "inputs", "configurations"], "all thread interleavings at shared memory accesses, team sizes, numbers of bins and species, included subsets, states",
     "The existing test compares one evaluation on the real runtime, whose schedule it does not control.",
     [PE], [("OpenMP loop over size bins", PE + " write_partitioning_section_fortran, write_partitioning_section_fortran_ignore")],
     "shared and private variables of the parallel loop, reductions", "outputs of the compiled routine under the simulated OpenMP runtime", "none (generated code is compiled with memory access callbacks)")
prop("C17", "Gas-particle partitioning conserves every species and the core",
     "At every solver call in an aerosol run, what a condensing species (including water) loses from the gas by partitioning equals what its amounts in all size bins gain together, and species excluded from partitioning have no condensed amount and are not touched by it. Over a run without reactions the total of every species over gas and particles is therefore constant.",
     ["inputs", "histories", "schedules"], "all mechanisms, included subsets, bin numbers, states and solver histories; aerosol and fixed-yield models; thread schedules",
     T + "one derivative is compared with a stored array; conservation and other included subsets are not checked.",
     [PE, "Aerosol/f2py/ODE_solver.py", "Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py"],
     [("transfer terms", PE + " write_partitioning_section_fortran_ignore"), ("assembly of the full derivative", "Aerosol/f2py/ODE_solver.py run_simulation.dydt_func")],
     "gas and condensed parts of the solution vector", "RHS callback, minus the gas chemistry of the reference model")
prop("C18", "Partitioning rates follow the documented condensation equations",
     "At every solver call in an aerosol run the condensation or evaporation rate of every species in every bin equals the model's stated physics: Fuchs-Sutugin corrected diffusion to particles of the current wet size, driven by the gas concentration minus the Kelvin- and Raoult-corrected equilibrium concentration at the current composition and temperature. Each bin uses its own composition, number and core, and each species its own properties.",
     ["inputs", "histories"], "all states, temperatures, bin numbers, property sets, included subsets, solver histories",
     T + "one state with one property set is compared with a stored array.",
     [PE, "Aerosol/f2py/ODE_solver.py", "Aerosol/Property_calculation.py"],
     [("growth equation", PE + " write_partitioning_section_fortran_ignore and write_partitioning_section_fortran"), ("arguments of the call", "Aerosol/f2py/ODE_solver.py run_simulation.dydt_func")],
     "solution vector, property arrays", "condensed part of the RHS callback against an independent implementation")
prop("C19", "Reported particle mass and sizes belong to the recorded state",
     "The organic particle mass and the particle sizes that an aerosol or fixed-yield run records for a batch are those of the state it records for the same batch, whatever trial states the solver evaluated last. The mass is the sum over bins of all condensed species except water and core, and the size is that of a particle holding the bin's whole content.",
     ["schedules", "histories", "inputs"], "all orders of solver calls at the end of a batch (rejected steps, overshooting, error tests), states, bins",
     "No test runs the batch loop.",
     ["Aerosol/f2py/ODE_solver.py", "Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py", PE],
     [("recording after a batch", "run_simulation: SOA_matrix, size_matrix"), ("diagnostics", PE + " write_partitioning_section_fortran_ignore")],
     "diagnostics carried from the last call, recorded matrices", "saved mass and size files against the saved states")
prop("C20", "Aerosol set-up gives each species its own properties, core and water",
     "An aerosol run considers for partitioning exactly the species that have a structure and, when the cut-off is on, an estimated vapour pressure not above it, plus water; each gets the density, molar mass, vapour pressure and transport properties computed from its own structure at the run's temperature. The initial state holds the configured gases and water vapour for the given humidity, a core per size bin that follows the configured lognormal distribution, and water in each bin in equilibrium with the humidity, and nothing else.",
     ["inputs", "configurations"], "all mechanisms, structure files (missing, partial, reordered), property values, temperatures, humidities, bin numbers, cut-offs",
     "The test uses a stored property set of one mechanism and never runs the front end.",
     ["Aerosol/f2py/Aerosol_simulation_f2py.py", "Aerosol/Property_calculation.py", "Aerosol/Size_distributions.py", PE],
     [("structures by name", PE + " extract_smiles_species"), ("property arrays and selection", "Aerosol/Property_calculation.py Pure_component1, Pure_component2"), ("size distribution", "Aerosol/Size_distributions.py lognormal")],
     "property arrays, include list, initial state", "state and arguments handed to the solver and to the partitioning routine")
prop("C21", "Simulations run after one another in one process do not influence each other",
     "Any number of gas simulations run one after another in the same Python process give the results each would give in a process of its own. This covers the default (Numba) model with the same or different mechanisms and settings, and the Fortran model with different settings as long as the mechanism stays the same (a compiled extension module cannot be loaded a second time).",
     ["histories"], "all sequences of simulations, mechanisms and settings in one interpreter",
     "Tests never run two simulations, and module caches only matter from the second on.",
     ["ODE_solver.py", "Gas_simulation.py", PE],
     [("import of generated modules", "ODE_solver.py run_simulation"), ("module state", PE + ", rate_coeff_conversion.py")],
     "imported modules, module globals, input dictionaries", "RHS, Jacobian and results of every simulation of the sequence")
prop("C22", "Results do not depend on hash seeds, directory order, core count or clock",
     "Two runs with the same mechanism and settings on a clean folder give bit-identical species order, generated code (apart from the creation stamp) and results, whatever the hash seed of the interpreter, the order in which the file system lists the folder, the number of cores and the wall clock. (OpenMP off: the generated OpenMP code is split by the number of cores on purpose.)",
     ["configurations", "schedules"], "all hash seeds, listing orders, core counts, wall clock times",
     "The tests run in one environment.",
     [PE, "Gas_simulation.py", "f2py/Gas_simulation_f2py.py", "Aerosol/f2py/Aerosol_simulation_f2py.py", "ODE_solver.py"],
     [("species numbering and code generation", PE), ("cleanup by directory listing", "front end scripts")],
     "dictionary and set iteration, directory listings, time stamps", "digest of generated files and of everything exchanged with the solver")
prop("C23", "The fixed-yield model distributes the listed yields and partitions them",
     "A fixed-yield run starts with every listed compound at its yield times the configured amount of parent compound, plus water vapour for the humidity and the core and water in the size bins; duplicate lines count once. Its derivative is pure gas-particle partitioning, so no gas species changes without an equal and opposite change in the particles, and states, masses and sizes recorded are those the solver accepted.",
     ["inputs", "histories", "configurations"], "all yield files, temperatures, humidities, amounts, solver histories",
     "No test touches the fixed-yield model.",
     ["Aerosol/f2py/Fixed_yield/Aerosol_sim_fixed_yield.py", "Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py", PE],
     [("yield file", PE + " extract_species"), ("set-up", "Aerosol/f2py/Fixed_yield/Aerosol_sim_fixed_yield.py"), ("RHS and batches", "Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py run_simulation")],
     "initial state, solution vector, recorded matrices", "RHS callback and states handed to the solver; saved files")
prop("C24", "Saved sparse matrices and index files describe the parsed mechanism",
     "The stored loss-gain matrix times the vector of reaction rates gives the mass-action derivative of the parsed mechanism, and the stored reactant index data, species dictionaries, equation count and peroxy radical indices describe the same mechanism and species order. They agree with each other and with the generated code after every parsing run, whatever was on disk before.",
     ["inputs", "histories"], "all mechanisms, sequences of parsing runs",
     "Tests load neither the matrix nor the index files of the gas model.",
     [PE, "Gas_simulation.py"],
     [("sparse matrix", PE + " write_loss_gain_matrix, save_sparse_csr"), ("reactant indices", PE + " write_reactants_indices"), ("dictionaries", "Gas_simulation.py pickle.dump")],
     ".npz, .npy and .pickle files", "files on the simulated disk after a parsing run")
prop("C25", "A run changes nothing outside its own model's folder, however it ends",
     "A run of one model, whether it ends normally, fails on a disk, compiler or solver error, is killed or loses power, leaves every file outside that model's folder bit for bit as it was and makes no files there: PyBox's own sources, the mechanism library and structure file it reads, and the input, generated and result files of the other models. In its own folder it removes or writes over only what that model generates (mechanism copies, generated code, index, property and result files by their endings); the user's other files there and everything in subfolders stay. (Python's byte code folders and temporary directories are left out.)",
     ["crash_points", "inputs", "configurations"], "all models, mechanisms, settings, contents of the tree, ends of the run, points of failure",
     "Tests never run a front end, and none looks at files it is not about.",
     ["Gas_simulation.py", "f2py/Gas_simulation_f2py.py", "Aerosol/f2py/Aerosol_simulation_f2py.py", "Aerosol/f2py/Fixed_yield/Aerosol_sim_fixed_yield.py", PE],
     [("cleanup before parsing", "front end scripts: os.listdir and os.remove"), ("copy of the mechanism", "front end scripts: copy2"), ("generated files", PE + " write_*"), ("saved results", "ODE_solver.py of each model")],
     "the whole folder tree", "every file of the tree before and after each run, on the simulated disk")
prop("C26", "Models that run at the same time in different folders do not interfere",
     "Processes that run at the same time, each in a folder of its own (the different models of one checkout, which share its mechanism library and structure file, or copies of PyBox elsewhere), each give bit for bit the results and saved files the same run gives alone. This holds for every interleaving of their disk operations and also when one of them fails or is killed in between.",
     ["schedules", "fault_sequences", "inputs"], "all sets of two to four models and copies, mechanisms, settings, interleavings, deaths",
     "Tests run one after another and never a front end.",
     ["Gas_simulation.py", "f2py/Gas_simulation_f2py.py", "Aerosol/f2py/Aerosol_simulation_f2py.py", "Aerosol/f2py/Fixed_yield/Aerosol_sim_fixed_yield.py", PE],
     [("work in the current folder", "front end scripts, " + PE + " write_*"), ("compilation in the current folder", "front end scripts: os.system of f2py")],
     "files in the model's folder, shared inputs, temporary directory", "history of every simulation and its saved files")
prop("C27", "The figures a run shows are those of its recorded results",
     "In the figures a run draws, every curve labelled with a species is the base-10 logarithm of that species' recorded concentration over the recorded times, the particle mass curve of the aerosol model is the recorded mass, and the bars of the fixed-yield model are, for every recorded time and size bin, the shares of the condensed compounds (water left out, negative amounts as none) in the recorded state, with their total mass in the title. A plotting library that fails at any call (no display) never changes or costs a run its saved results.",
     ["inputs", "histories", "fault_sequences", "configurations"], "all models, mechanisms, yield lists, cut-offs, states, calls at which plotting fails",
     "Tests never run a front end, and figures are for the eye.",
     ["Gas_simulation.py", "f2py/ODE_solver.py", "Aerosol/f2py/ODE_solver.py", "Aerosol/f2py/Fixed_yield/Plotting.py", "Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py"],
     [("curves", "Gas_simulation.py and the ODE_solver.py of each model: plt.plot"), ("bars", "Aerosol/f2py/Fixed_yield/Plotting.py stacked_bar")],
     "recorded matrices", "arguments of the calls of matplotlib; saved files")
import os
with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P))
