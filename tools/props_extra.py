def add(p):
    p("S12", "Decision variables translate faithfully between solver and user",
      "For every decision variable the values decode() and generate() produce belong to the declared domain, whatever point of the continuous space they come from; a value of the domain survives encode followed by decode unchanged; correct() returns an admissible point for any input, leaves admissible points where they are (idempotent) and agrees with decode(); a point decodes to the value whose cell it lies in, so that every value can be reached; a problem decodes, encodes and corrects a whole solution variable by variable, in the declared order and under the declared names.",
      ["inputs"], "For all variable classes (float, integer, string, categorical, sequence, permutation, binary, boolean, transfer binary/boolean with every transfer function), any bounds and label lists, scalars or lists of them, any mixture of them in one problem, all points inside the box, on cell borders, outside, infinite.",
      "The tests check a few decodes of fixed points inside the bounds; cell borders, repeated labels, mixed problems, points outside and round trips are not covered.",
      ["mealpy/utils/space.py", "mealpy/utils/problem.py", "mealpy/utils/transfer.py"],
      [("variables", "mealpy/utils/space.py: FloatVar ... BoolVar, LabelEncoder"), ("whole solutions", "mealpy/utils/problem.py: decode_solution, encode_solution, correct_solution, generate_solution"), ("transfer functions", "mealpy/utils/transfer.py")],
      ["return values of encode, decode, correct, generate of variables and problems"],
      technique="TLC model checking of Codec.tla (all small domains, CodecMC.tla) and judging of recorded calls of the real variables (CodecTrace.tla)",
      note="Real calls at ticks of 1e-4 are judged by TLC with the predicates that CodecMC checks exhaustively on small domains. Trusted: TLC, the harness' conversion of labels to numbers. Finite sample of variables and points chosen by VERIF_SEED.")

    p("S24", "set_parameters() is as good as the constructor",
      "Giving hyper-parameters to set_parameters() - all at once or one after the other, on a new or on a used optimizer - makes the optimizer the one its constructor makes of the same values: the same get_parameters(), the same attributes, and the same run. An unknown name is refused with a ValueError that changes nothing, and the caller's dictionary is left alone.",
      ["configurations", "inputs", "histories"], "For every optimizer, accepted values within the bounds of the constructor (those not reported by get_parameters() are given to both constructors).",
      "The tests set parameters of one optimizer and read them back; values that the constructor derives from them (group sizes, schedules) are not looked at.",
      ["mealpy/optimizer.py", "mealpy/**/*.py"], [("setting", "mealpy/optimizer.py: set_parameters, get_parameters"), ("derived values", "mealpy/*_based/*.py: __init__, initialize_variables"), ("users", "mealpy/tuner.py")],
      ["get_parameters(), attributes", "both runs completely"], technique="Product specification (Product.tla) checked by TLC over pairs of recorded runs")

    p("S15", "Tuner runs the whole grid and reports the real winner",
      "ParameterGrid yields every combination of every grid once, in dictionary order, and its length, its indexing and its iteration agree. Tuner.execute() runs every combination n_trials times with exactly these parameters, problem, mode, workers and termination; its table shows the fitness of these runs in order, their mean, standard deviation and ranks, and the winner: a combination with the best mean for min or max, the smallest deviation among equals. best_params, best_score, best_row, best_algorithm and resolve() agree with it, the losses and exported files show the same runs.",
      ["inputs", "configurations", "histories"], "For any grids (lists, tuples, arrays), any number of trials, results with ties, min and max, dict or Problem, sequential or with several jobs.",
      "The tests tune one optimizer over one grid and check types; ranks, ties, maximization, job pools and exported files are not checked.",
      ["mealpy/tuner.py", "mealpy/optimizer.py"], [("grid", "mealpy/tuner.py: ParameterGrid"), ("execution and ranking", "mealpy/tuner.py: Tuner.execute"), ("winner", "mealpy/tuner.py: best_*, resolve"), ("exports", "mealpy/tuner.py: export_results, export_figures")],
      ["solve() calls of the tuned optimizer", "df_fit, df_loss, best_*", "files"],
      technique="TLC model checking of Experiments.tla (ExpMC) and judging of recorded studies (ExpTrace.tla)",
      note="Scripted and real optimizers are tuned by the real Tuner; every solve() call it makes and every table it publishes are judged by TLC with the operators that ExpMC checks exhaustively for small studies. Trusted: TLC, pandas' reading of exported files. Finite sample chosen by VERIF_SEED.")
    p("S16", "Multitask runs every algorithm on every problem and files the right results",
      "Multitask.execute() runs every algorithm on every problem n_trials times with the termination and mode that the user's list gives for this cell (lists of size 1, n, m or n*m; others are refused), and writes for each algorithm and problem the fitness values and convergence of exactly these runs, in order, under their names and in the chosen format.",
      ["inputs", "configurations"], "For any number of algorithms, problems with distinct names and trials, dict or Problem, all list sizes, all formats, sequential or with several jobs.",
      "The tests run one small study and only see that it does not raise.",
      ["mealpy/multitask.py"], [("settings lists", "mealpy/multitask.py: check_input"), ("execution and files", "mealpy/multitask.py: execute")],
      ["solve() calls of the algorithms", "written files"],
      technique="TLC model checking of Experiments.tla (ExpMC) and judging of recorded studies (ExpTrace.tla)",
      note="Scripted and real optimizers are run by the real Multitask; TLC judges every solve() call and every file. Trusted: TLC, pandas' reading of exported files. Finite sample chosen by VERIF_SEED.")

    p("S14", "Settings are accepted exactly when they are declared valid, and kept as given",
      "A constructor accepts a hyper-parameter exactly when it has the declared type and lies in the declared range (open or closed ends, choices, booleans, sequences), refuses anything else with a ValueError before a single evaluation, and keeps an accepted value exactly. The same holds for the validators themselves, for mode, n_workers, termination, starting solutions and seed of solve(), for the criteria of a Termination, and for the arguments of problems and variables.",
      ["inputs", "configurations"], "For every hyper-parameter of every optimizer, values on, next to and far from each bound, of every Python and NumPy type, NaN and infinity.",
      "The tests try a handful of values of some parameters; the ends of the ranges, other types, NaN and the state after a refusal are not covered.",
      ["mealpy/utils/validator.py", "mealpy/**/*.py", "mealpy/utils/termination.py", "mealpy/optimizer.py"],
      [("validators", "mealpy/utils/validator.py"), ("use", "mealpy/*_based/*.py: __init__"), ("solve()", "mealpy/optimizer.py: check_mode_and_workers, check_termination"), ("criteria", "mealpy/utils/termination.py")],
      ["constructors, validators, solve()"],
      technique="TLC model checking of Settings.tla (SettingsMC) and judging of recorded attempts at the real constructors, validators and solve() (SettingsTrace.tla)",
      note="The declared ranges (harness/ranges.json) were recorded once from the reviewed code. Values around every bound are given to the real classes; TLC decides from the rule whether they should have been accepted. Trusted: TLC, the table of ranges. Values chosen by VERIF_SEED.")

    p("S20", "The helpers of the optimizers select, copy and draw what they promise",
      "Sorting, best, worst, special agents, trimming, grouping, greedy selection, comparison of agents, targets and fitness values do what min or max asks for, whatever the order, ties and signs, on lists which they leave as they are, and return copies or the same objects as documented. Sampling of indexes leaves out exactly the excluded ones and can draw all others; roulette wheel probabilities are proportional to how much better an agent is than the worst; a tournament returns winners of k different agents; crossover, opposition and Levy steps keep their laws; improved_ms never loses the better half.",
      ["inputs", "histories"], "For all populations of 1 to 12 agents with ties, any sign and both directions, all group sizes, all sets of excluded indexes, histories of calls on the same agents.",
      "The tests call a few helpers once on one population and look at lengths.",
      ["mealpy/optimizer.py", "mealpy/utils/agent.py", "mealpy/utils/target.py"],
      [("selection helpers", "mealpy/optimizer.py: get_sorted_population ... compare_target"), ("drawing", "mealpy/optimizer.py: get_index_roulette_wheel_selection, get_index_kway_tournament_selection, sample..., get_levy_flight_step"), ("agents", "mealpy/utils/agent.py, mealpy/utils/target.py")],
      ["arguments and results of the helpers, objects they share"],
      technique="TLC model checking of Helpers.tla (HelpersMC) and judging of recorded histories of calls of the real helpers (HelpersTrace.tla)",
      note="Random histories of calls of the real helpers on shared agents are judged by TLC with the operators HelpersMC checks exhaustively for small populations; drawing frequencies within five standard deviations. Trusted: TLC, the harness' numbering of objects. Histories chosen by VERIF_SEED.")

    p("S22", "Agents and targets are values",
      "A copy of an agent or of a population shares nothing with the original: whatever is done later to one of them (editing the position in place, giving it another position or target, further attributes) is not seen in the other. Only sync_if_duplicate() makes two agents share a target. An agent's fitness is always the weighted sum of its objectives, ids are unique, agents with the same position are equal, have the same hash and are one element of a set, distant ones differ, and is_better_than and get_better_solution are a strict order in the chosen direction.",
      ["histories", "inputs"], "For all histories of creation, copying, editing, retargeting, comparison and synchronisation of agents.",
      "The tests copy one agent and compare it with the original, and never change one of them afterwards.",
      ["mealpy/utils/agent.py", "mealpy/utils/target.py", "mealpy/optimizer.py"],
      [("agents", "mealpy/utils/agent.py"), ("targets", "mealpy/utils/target.py"), ("copies of populations", "mealpy/optimizer.py: duplicate_pop")],
      ["attributes of agents and targets after each operation"],
      technique="TLC model checking of the object heap of Helpers.tla (HelpersMC) and judging of recorded histories of real agents (HelpersTrace.tla)",
      note="After every operation of a history, TLC compares everything that can be seen of all agents with the specification's heap. Trusted: TLC, the harness' numbering of objects. Histories chosen by VERIF_SEED.")

    p("S25", "The form in which arguments are given does not matter",
      "A run depends on what is asked for and not on how it is written: a problem as dictionary or Problem object, omitted or explicit defaults, positional or named arguments, termination as dictionary or object, weights as list, tuple or array, starting solutions as lists, tuples or arrays, and objective results as Python or NumPy numbers, lists, tuples or arrays all give the same run, and the caller's dictionary stays as it was.",
      ["inputs", "configurations"], "For every optimizer and kind of problem.",
      "Each test uses one form; two forms of the same run are never compared.",
      ["mealpy/optimizer.py", "mealpy/utils/problem.py", "mealpy/utils/termination.py", "mealpy/utils/target.py"],
      [("problem", "mealpy/optimizer.py: check_problem; mealpy/utils/problem.py"), ("termination", "mealpy/optimizer.py: check_termination"), ("results", "mealpy/utils/target.py: set_objectives")],
      ["both runs completely"], technique="Product specification (Product.tla) checked by TLC over pairs of recorded runs")

    p("S26", "Every optimizer can be found, named and described",
      "get_all_optimizers() lists exactly the optimizer classes of the package, each under its class name; get_optimizer_by_class() and get_optimizer_by_name() return that class for its name (a module name gives its classes) and None or nothing for other names; name, str() and get_parameters() of an optimizer describe it: its own class or the given name, and the values it was made with.",
      ["configurations", "inputs"], "For every class of the package and every accepted parameter setting.",
      "The tests look up one optimizer; the list is not compared with the package.",
      ["mealpy/__init__.py", "mealpy/optimizer.py"], [("registry", "mealpy/__init__.py"), ("description", "mealpy/optimizer.py: __str__, get_name, get_parameters")],
      ["results of the look-ups, str(), get_parameters()"],
      technique="Judging of recorded look-ups and descriptions of the real classes by TLC (SettingsTrace.tla)",
      note="The package's modules are walked to find the classes independently of the registry. Trusted: TLC, Python's introspection. Exhaustive over classes; parameter settings chosen by VERIF_SEED.")

    p("S27", "The recorded progress of a run is true",
      "What the history reports about the progress of a run follows from what happened: per epoch the fitness of the recorded current and global best, the diversity of the population at the end of the epoch (mean distance from the median, averaged over the coordinates), the time the epoch took; and over the run the exploration of each epoch as its share of the largest diversity in percent, the exploitation as the rest to 100, and the number of executed epochs.",
      ["histories", "configurations"], "For every optimizer, mode, direction, number of objectives, population that shrinks, grows or collapses into one point, and stop at any epoch.",
      "The tests do not look at diversity, exploration, exploitation or epoch times at all.",
      ["mealpy/optimizer.py", "mealpy/utils/history.py"], [("per epoch", "mealpy/optimizer.py: track_optimize_step"), ("per run", "mealpy/optimizer.py: track_optimize_process"), ("lists", "mealpy/utils/history.py")],
      ["all lists of the history, the population at the end of every epoch, a scripted clock"],
      technique="TLC model checking of Progress.tla (ProgressMC) and judging of the recorded progress of real runs (ProgressTrace.tla)",
      note="Objective, clock and positions are recorded independently of the history; TLC recomputes the diversity in exact integers from the populations. Trusted: TLC, the harness' rounding of numbers. Runs chosen by VERIF_SEED.")

    p("S28", "Logs and charts report the recorded run",
      "The log (console, file, none) that a problem asks for gets one line for each executed epoch with the problem's name, epoch, current and global best of the history, in the place asked for and nowhere else. Every chart of the history draws exactly the recorded values with the given title, labels and legends, into the given file in the given formats, refuses what it cannot draw with an error, and changes neither the history nor the user's own figures.",
      ["histories", "configurations", "inputs"], "For every optimizer class, logging setting and order of runs in a process, every kind of chart and every set of drawn agents and coordinates.",
      "The tests do not read a log line and do not look at any chart.",
      ["mealpy/utils/logger.py", "mealpy/utils/history.py", "mealpy/utils/visualize/linechart.py", "mealpy/optimizer.py"],
      [("logging", "mealpy/utils/logger.py; mealpy/optimizer.py: check_problem, track_optimize_step"), ("charts", "mealpy/utils/history.py: save_*_chart; mealpy/utils/visualize/linechart.py")],
      ["log lines on console and in files, figures handed to the file writer, files written"],
      technique="TLC model checking of Progress.tla (ProgressMC) and judging of recorded logs and charts of real runs (ProgressTrace.tla)",
      note="The figure is captured where matplotlib writes it; lines, texts and file are compared by TLC with the history. Trusted: TLC, matplotlib, Python's logging. Runs chosen by VERIF_SEED.")
