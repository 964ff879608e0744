FL = "src/simulator/fluid.py"
PVT = "src/simulator/pvt.py"
CONFTECH = ("TLA+ specification ({spec}) explored by TLC on a grid or family of configurations, the explored states/behaviours "
            "replayed on the real code, and recorded executions of the real code validated by TLC ({trace})")
FLUIDTECH = CONFTECH.format(spec="MCFluid/FluidSys", trace="FluidTrace")
FLUIDNOTE = ("TLC walks every point of a grid of pressures and saturations for a family of fluids in binary64; the real functions are "
             "evaluated at each of those points and at seeded random fluids, fields and arguments (kinks and table nodes included), "
             "and every answer is checked in interval arithmetic wide enough for binary32 rounding.")

prop("C16", "Relative permeability curves and their derivatives are consistent",
     "For every saturation the water, oil and gas relative permeabilities follow the configured model (Corey or Stone II): they lie in [0,1], are zero for an immobile phase, reach their end points, and never fall as the own phase grows or rise as the others do. "
     "The derivative functions are the slopes of those curves, zero where the curve is flat.",
     ["inputs", "configurations"], "every saturation field (kinks included), end points, exponents, residual saturations and model",
     "tests look at the reduction of Stone II and at bounds of one curve; nothing relates derivatives to curves or covers end points and kinks",
     [FL], [("curves", FL + ":get_rel_perms"), ("derivatives", FL + ":calc_dkrw_dsw")], observe=["values returned by the functions"],
     technique=FLUIDTECH, level_note=FLUIDNOTE)
prop("C17", "Capillary pressures follow their configured law",
     "The water-oil and gas-oil capillary pressures are the configured power laws of the normalised saturation, monotone and finite over the whole range, in both configuration formats, and identically zero when not configured. "
     "Their derivatives are the slopes of those curves.",
     ["inputs", "configurations"], "every saturation field, scale, exponent, residual saturations and configuration format",
     "one test compares two simulations with and without gas-oil capillarity",
     [FL], [("capillary pressure", FL + ":get_capillary_pressure"), ("gas-oil", FL + ":get_capillary_pressure_og")],
     observe=["values returned by the functions"], technique=FLUIDTECH, level_note=FLUIDNOTE)
prop("C18", "PVT tables are interpolated faithfully and bad tables rejected",
     "Evaluating a PVT table at any pressures returns, for every property, the table value at the nodes, the linear interpolation between neighbouring nodes and the end value outside, in the shape asked, never leaving the range of the column. "
     "A table whose columns are missing or of different length, or whose pressures do not ascend, is rejected; a missing Rv column means no vaporised oil.",
     ["inputs", "configurations"], "every table and every array of pressures; every way a table can be incomplete",
     "the test evaluates one table at one pressure; validation is never exercised",
     [PVT], [("interpolation", PVT + ":eval"), ("validation", PVT + ":__init__")], observe=["values returned", "exception on construction"],
     technique=FLUIDTECH, level_note=FLUIDNOTE)
prop("C19", "Densities, viscosities and compressibility follow the fluid description",
     "Phase densities at any pressure are the surface densities (with dissolved gas and vaporised oil) divided by the formation volume factors, or the linear compressibility law without a table; viscosities come from the table or the configuration in SI. "
     "The total compressibility is that of the rock plus the saturation-weighted fluids, and evaluating any of them changes no field.",
     ["inputs", "configurations"], "every pressure and saturation field, fluid configuration and PVT table",
     "one test compares one gas density; units, the linear law and the compressibility are untested",
     [FL, PVT], [("densities", FL + ":rho_o"), ("compressibility", FL + ":calc_total_compressibility")], observe=["values returned"],
     technique=FLUIDTECH, level_note=FLUIDNOTE)

RUNNOTE = ("TLC walks every sequence of step outcomes for a family of run parameters; each is replayed through the real run loop, real-solver "
           "command-line runs are recorded, and every step, picture and file is checked against the specification.")
def RUNTECH(): return CONFTECH.format(spec="MCRunLoop/RunLoop", trace="RunTrace")
prop("C14", "A run follows its schedule and leaves exactly the files of its report",
     "A run makes as many steps of the configured length as fit into the total time, stops at the first step that fails, and writes a numbered picture after every save interval. "
     "At the end, complete or not, it leaves the final picture, the summary, and the arrays and animation if asked for, and nothing is written before it is due.",
     ["configurations", "fault_sequences"], "every total time, step length, save interval, report option and sequence of step outcomes",
     "tests call single steps; the loop, its rounding of total over dt, and its failure path are never run",
     [SIM, "src/main.py"], [("run loop", SIM + ":run"), ("entry point", "src/main.py:main")],
     observe=["calls of the time step", "files in the results directory"], technique=RUNTECH(), level_note=RUNNOTE)
prop("C15", "Reports and pictures show the state of the simulation",
     "The summary gives the minimum, maximum and mean of every field, the mass in, out and net of each phase and, if asked, the full arrays; the npz file holds the final fields. "
     "Each picture shows, for the layer where water varies most, the pressure in MPa and the saturations with X horizontal and Y vertical, the colour scale covering the values, and the day reached.",
     ["configurations", "histories"], "every field, grid shape and moment of a run",
     "a human looks at pictures; no test opens a report",
     [SIM, "src/plotting/plotter.py"], [("summary", SIM + ":_save_final_report"), ("pictures", "src/plotting/plotter.py")],
     observe=["summary file, npz file, images and labels of the figures"], technique=RUNTECH(), level_note=RUNNOTE)
prop("C20", "A model is built as its document says, or rejected",
     "Grid, cell numbering, permeabilities, pore volumes, well positions, well indices (Peaceman, SI), controls and initial fields are those of the configuration document in SI units, with documented defaults, and the same in either of the two document formats. "
     "A well outside the grid, without position, control, name, type or radius, or too wide for its cell when its index is needed, and more water and gas than pore space, are rejected.",
     ["configurations"], "every document, optional entries left out and single faults included",
     "tests build a handful of documents in one format and never a faulty one",
     ["src/simulator/reservoir.py", "src/simulator/well.py", FL],
     [("grid and permeability", "src/simulator/reservoir.py:__init__"), ("wells", "src/simulator/well.py:__init__"), ("initial fields", FL + ":__init__")],
     observe=["attributes of the built objects", "exception on construction"],
     technique=CONFTECH.format(spec="MCConstruct/Construct", trace="ConstructTrace"),
     level_note="TLC builds every document of a seeded family in both formats; documents with defaults, faults and tables are built by the real classes and every attribute is compared with the specification's model.")
ENVNOTE = ("TLC walks every short sequence of resets, actions, solver outcomes and resulting fields for a family of models; the sequences are replayed on the real environment "
           "and random episodes recorded, and every observation, reward, flag and control is checked.")
ENVTECH = CONFTECH.format(spec="MCEnv/Env", trace="EnvTrace")
prop("C21", "Episodes follow the environment contract",
     "Creating or resetting the environment puts the model, its controls and the step count at the configured start. "
     "Each step makes exactly one simulator step of the configured length and returns the pressures (in 10 MPa) and water saturations; the episode terminates at the step limit or at the first failed step, which is reported as not converged with reward -1000 and unchanged fields.",
     ["histories", "fault_sequences", "configurations"], "every sequence of resets, actions and solver outcomes, before and after the end of an episode",
     "no test creates the environment",
     ["src/rl_env.py"], [("reset", "src/rl_env.py:reset"), ("step", "src/rl_env.py:step")],
     observe=["values returned by reset and step"], technique=ENVTECH, level_note=ENVNOTE)
prop("C22", "Actions move the controls and the reward is the oil that left",
     "An action changes the target of each rate well by up to 20 percent of its current value and of each pressure well by up to 5 MPa, in proportion to the action and for the right well, before the step, and nothing else changes a control. "
     "The reward of a converged step is the decrease of the oil mass in place (millions of kg) over that step, so that the rewards of an episode add up to the oil that left since the reset.",
     ["histories", "inputs"], "every sequence of actions, resets and failures, mix of wells and fluid",
     "no test creates the environment",
     ["src/rl_env.py"], [("actions", "src/rl_env.py:_apply_action"), ("reward", "src/rl_env.py:_calc_reward")],
     observe=["controls seen by the simulator step", "reward"], technique=ENVTECH, level_note=ENVNOTE)
prop("C29", "The animation shows the pictures in the order of the steps",
     "The animation of a run consists of the pictured steps in numerical order, then the final picture, each once, at the configured frame rate. "
     "Only numbered step pictures take part, and a folder without any gives no file.",
     ["configurations", "histories"], "every set of file names in the folder, step number and frame rate",
     "ordering by text instead of number only shows with steps of different digits; no test makes an animation",
     ["src/utils.py", SIM], [("frames", "src/utils.py:create_animation"), ("call at the end of a run", SIM + ":run")],
     observe=["frames of the file"], technique=RUNTECH(), level_note=RUNNOTE)

PAIRNOTE = ("TLC runs both members of a family of model pairs side by side through the specification in binary64 and checks the correspondence in every reachable state; "
            "those behaviours and seeded random pairs are run on the real code, and every paired step is checked in interval arithmetic, with exactly the slack the two solver tolerances leave.")
PAIRTECH = CONFTECH.format(spec="MCPair/Pair", trace="PairTrace")
prop("C05", "Nothing crosses an impermeable wall",
     "When a layer of cells has no permeability across it, the pressures and saturations on one side of it evolve in the same way whatever lies behind it: other rock, other fluids in place, other wells and rates, more or fewer cells.",
     ["configurations", "schedules"], "every position and direction of the wall and everything that may be behind it",
     "needs two runs that differ only where nothing can be felt; no test compares runs across a barrier",
     [SIM], [("transmissibilities (harmonic means)", SIM + ":_build_pressure_matrix_vectorized"), ("face fluxes", SIM + ":_impes_saturation_step")],
     observe=["fields of both runs after each step"], technique=PAIRTECH, level_note=PAIRNOTE, hook=HOOK)
prop("C25", "The choice of the linear solver does not change the answer",
     "Conjugate gradients or algebraic multigrid, single or double precision, tighter or looser tolerances within the accepted range: a converged step gives the same pressures within the configured tolerances, hence the same saturations and reported rates.",
     ["configurations", "schedules"], "every pressure-solver option on every model and schedule",
     "tests run one solver at a time on one matrix each",
     [SIM, "src/solver"], [("dispatch of the pressure solver", SIM + ":_impes_pressure_step"), ("AMG", "src/solver/classical_amg.py")],
     observe=["fields of both runs after each step"], technique=PAIRTECH, level_note=PAIRNOTE, hook=HOOK)
prop("C26", "Results do not depend on numbering or orientation",
     "Mirroring a model in X or Y, exchanging X and Y, or listing its wells in another order gives the mirrored, exchanged or reordered results. There is no preferred horizontal direction and no preferred well.",
     ["configurations", "schedules"], "every model, mirroring, exchange of the axes and order of wells",
     "a sign or an axis mixed up gives plausible numbers in any single run; no test compares a model with its mirror image",
     [SIM, "src/simulator/reservoir.py", "src/simulator/well.py"],
     [("assembly of the pressure equation", SIM + ":_build_pressure_matrix_vectorized"), ("transport", SIM + ":_impes_saturation_step"), ("well cells", "src/simulator/well.py")],
     observe=["fields and reported rates of both runs after each step"], technique=PAIRTECH, level_note=PAIRNOTE, hook=HOOK)
AMGNOTE = ("TLC builds the multigrid hierarchy for every choice of coarse points on small graphs and walks histories of building, updating and solving; "
           "the histories and seeded random ones are run on the real multigrid, and every level, interpolation, coarse matrix, answer and flag is checked against the specification.")
AMGTECH = CONFTECH.format(spec="MCAmg/Amg", trace="AmgTrace")
prop("C23", "The multigrid hierarchy represents the matrix it solves",
     "Each coarse matrix of the algebraic multigrid solver is the Galerkin product of the finer matrix with its interpolation, after construction and after every update with new matrix values. "
     "Interpolation takes non-negative weights that add up to one and reproduces coarse points. The finest level is the (symmetrically scaled) matrix of the current step, the depth is limited as configured, and no hierarchy is used for a matrix it was not built or updated for.",
     ["histories", "inputs"], "every matrix of a pressure equation, order of building, updating and solving, and reuse between steps",
     "a stale or wrong hierarchy only costs iterations in the tests, or is hidden by the fallback solver",
     ["src/solver"], [("hierarchy", "src/solver/classical_amg.py:__init__"), ("update", "src/solver/classical_amg.py:update_matrix"), ("reuse", "src/solver/pressure_amg.py")],
     observe=["matrices and interpolations of the levels after every build and update"], technique=AMGTECH, level_note=AMGNOTE)
prop("C24", "An answer reported as converged solves the equation",
     "A multigrid solution reported as converged satisfies the given system within the requested tolerance, and one that does not is reported as not converged. "
     "Small systems are solved directly. No cycle makes the error (in the energy norm) larger, and used as a preconditioner the multigrid is a linear operation that starts from zero.",
     ["histories", "inputs"], "every matrix, right-hand side, tolerance, cycle limit and history of previous solves",
     "tests look at one matrix and accept any answer below a loose residual",
     ["src/solver"], [("cycle and verdict", "src/solver/classical_amg.py:solve"), ("driver", "src/solver/pressure_amg.py")],
     observe=["solution, flag and residual of every solve"], technique=AMGTECH, level_note=AMGNOTE)
prop("C27", "Simulators do not affect one another, and a run continues from its fields alone",
     "A simulator gives the same results, bit for bit, whether or not other simulators are built, stepped or read in the same process in any interleaving, also when they share the configuration document, the reservoir or the PVT file. "
     "A simulator restarted from the pressure and saturations of a run continues it as if it had not stopped. Building and running never changes the documents, and reading results changes nothing.",
     ["schedules", "histories"], "every interleaving of building, stepping, reading and restarting several models in one process",
     "tests run one simulator at a time and never compare with a second run",
     [SIM, "src/simulator/reservoir.py", "src/simulator/well.py", FL, "src/simulator/pvt.py"],
     [("state of a simulator", SIM + ":__init__"), ("state of a fluid", FL + ":__init__"), ("step", SIM + ":run_step")],
     observe=["fields, ledgers, well reports and documents of each simulator"],
     technique=CONFTECH.format(spec="MCWeave/Weave", trace="WeaveTrace"),
     level_note="TLC enumerates interleavings of the operations of two simulators and checks non-interference; each interleaving is replayed on the real code in a fresh process and compared bit for bit with the solo runs.")
prop("C28", "An exported file shows the fields of the model, cell by cell",
     "A file exported for visualisation holds the pressure, saturations and permeabilities of the moment it was written, each at the place of its cell on a grid with the dimensions and cell sizes of the model. "
     "Exporting changes neither the model nor other files, and a run that is asked to export does so without losing any other part of its report.",
     ["configurations", "histories"], "every grid shape, field and order of changing and exporting",
     "a transposed array only shows on a grid with different numbers of cells along the axes; no test reads an exported file",
     ["src/output/vtk_writer.py", SIM], [("cell file", "src/output/vtk_writer.py:save_to_vtk"), ("file of a run", SIM + ":_save_to_vtk")],
     observe=["exported files, parsed back", "fields after an export"],
     technique=CONFTECH.format(spec="MCExport/Export", trace="ExportTrace"),
     level_note="TLC walks every short history of changes and exports; these and random runs are executed, the files parsed (pyevtk) or taken from stand-ins for the VTK modules, and compared cell by cell.")
prop("C30", "Generated PVT tables follow their correlations and can be used",
     "The PVT generator writes, for the parameters it is given, evenly spaced pressures over the requested range and the documented curves: dissolved gas growing to its maximum at the bubble point and constant above, volume factors and viscosities positive with their physical trends, vaporised oil at most 0.02. "
     "The command line and the library produce the same table, the file records its parameters and units, and the fluid model reads it back.",
     ["inputs", "configurations"], "every range, number of rows, bubble point (inside or outside the range) and oil and gas",
     "no test calls the generator",
     ["src/simulator/pvt_generator.py", "src/simulator/pvt.py"],
     [("curves", "src/simulator/pvt_generator.py:generate_black_oil_pvt"), ("command line", "src/simulator/pvt_generator.py:main"), ("reading", "src/simulator/pvt.py")],
     observe=["generated documents and files", "values the table reader returns"],
     technique=CONFTECH.format(spec="MCPvtGen/PvtGen", trace="PvtGenTrace"),
     level_note="TLC checks the laws of the curves for a family of parameters and walks histories of requests; they and random requests go to the real function and command line, and every value is compared.")
