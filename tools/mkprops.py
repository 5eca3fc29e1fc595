"""Writes properties.jsonl and MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = json.load(open(os.path.join(V, "harness/classes.json")))
HUGE, NONNEG = ["asym_huge", "asin_huge"], ["asym", "asin_pos", "asym_pos", "asym_huge"]
O = "mealpy/optimizer.py"
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, technique=None, level="model_checking", note=""):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why, anchors=a,
                  _t=technique, _l=level, _n=note))


ALL = "every registered optimizer class (282), accepted hyper-parameters and population sizes >= 10, every kind of decision variable and mixes of them, min and max, every seed, single/thread/swarm mode"
TESTS = "The tests run each optimizer once on one fixed two- or five-dimensional continuous problem and look at types and lengths only"
TRACE = "TLA+ trace validation (SolveTrace.tla) of recorded runs of every optimizer"

p("S01", "Only feasible solutions are evaluated and reported",
  "Every position an optimizer hands to the objective function, and every solution it reports (population, best so far, history, returned agent), lies in the declared search space: right dimension, no NaN, inside the bounds of every coordinate, integers/labels/permutations valid for their variable.",
  ["inputs", "configurations", "histories"], "For " + ALL + ".",
  TESTS + "; whether any of the positions of a run leaves the space for other bounds, variable kinds or parameters is never observed.",
  ["mealpy/optimizer.py", "mealpy/utils/space.py", "mealpy/utils/problem.py", "mealpy/**/*.py"],
  [("correction of candidate positions", O + ": Optimizer.correct_solution / amend_solution"), ("per-variable correction", "mealpy/utils/space.py: *.correct"), ("every algorithm corrects before evaluating", "mealpy/*_based/*.py: evolve")],
  ["arguments of Problem.obj_func", "optimizer.pop, optimizer.g_best at each epoch boundary", "optimizer.history", "value returned by solve()"], technique=TRACE)

p("S02", "A reported solution carries its own objective values",
  "Every agent an optimizer reports (population at each epoch boundary, best so far, all histories, returned agent) is a position that was really evaluated in this run, and its target holds exactly the objective values and the fitness which the objective function returned for that position. In particular nothing edits a reported position afterwards without evaluating it.",
  ["inputs", "configurations", "histories"], "For " + ALL + ".",
  TESTS + "; a position that is edited in place or stored uncorrected next to the target of another position still has the right type.",
  ["mealpy/optimizer.py", "mealpy/utils/agent.py", "mealpy/utils/target.py", "mealpy/**/*.py"],
  [("agents and their copies", "mealpy/utils/agent.py"), ("evaluation", O + ": get_target, update_target_for_population, generate_agent"), ("every algorithm's update step", "mealpy/*_based/*.py: evolve")],
  ["Problem.obj_func calls", "optimizer.pop / g_best", "optimizer.history", "returned agent"], technique=TRACE)

p("S03", "Best and worst so far are tracked correctly",
  "At every moment of a run the best so far is at least as good as every agent of the current population and never gets worse, improves only to the value of a solution that was evaluated, and the returned agent is the final best so far. The per-epoch current best and worst are the best and worst of that epoch's population, and the recorded global best/worst bracket them and are monotone, for minimization and maximization alike.",
  ["inputs", "configurations", "histories"], "For " + ALL + ", including objectives with ties, constant, negative, tiny and huge values, and any sequence of populations an algorithm can produce.",
  TESTS + "; one run of a smooth minimization problem says nothing about orders with ties, maximization or non-elitist populations.",
  [O, "mealpy/utils/history.py", "mealpy/utils/agent.py"],
  [("epoch bookkeeping", O + ": update_global_best_agent, track_optimize_step"), ("sorting and specials", O + ": get_special_agents, get_sorted_population, compare_target"), ("history", "mealpy/utils/history.py: store_initial_best_worst, set_* / get_*")],
  ["optimizer.g_best, optimizer.pop at each epoch boundary", "optimizer.history"],
  technique="TLC model checking of Solve.tla, replay of its behaviours on Optimizer, trace validation (SolveTrace.tla)")

p("S04", "The returned solution is the best one ever evaluated",
  "No position that was evaluated anywhere in a run has a strictly better fitness than the agent that solve() returns.",
  ["inputs", "configurations", "histories"],
  "For " + ALL + ", except these optimizers, whose published update rule can drop an evaluated improvement or evaluates trial points it does not select from: " + ", ".join(C["not_elitist"]) + ".",
  TESTS + "; losing an evaluated improvement leaves a valid agent.",
  ["mealpy/optimizer.py", "mealpy/**/*.py"],
  [("greedy selection", O + ": get_better_agent, greedy_selection_population, get_sorted_and_trimmed_population"), ("epoch bookkeeping", O + ": update_global_best_agent"), ("each algorithm's selection step", "mealpy/*_based/*.py")],
  ["Problem.obj_func calls", "returned agent"], technique=TRACE)

p("S05", "The history is complete and is never rewritten",
  "After a solve every history list has exactly one entry per executed epoch, in order, without entries of the initial population or of earlier solves; populations are kept exactly when asked for. Each entry shows the state at the end of its epoch and is not changed by anything that happens later.",
  ["histories", "configurations", "inputs"], "For " + ALL + ", any number of epochs (also when a termination criterion ends the run early) and with or without stored populations.",
  TESTS + "; entries that alias live agents, or one missing entry in some mode, go unnoticed.",
  [O, "mealpy/utils/history.py", "mealpy/utils/agent.py"],
  [("recording", O + ": track_optimize_step, track_optimize_process, update_global_best_agent"), ("storage", "mealpy/utils/history.py"), ("copies", "mealpy/utils/agent.py: Agent.copy")],
  ["optimizer.history after solve(), compared with the state seen at each epoch boundary"],
  technique="TLC model checking of Solve.tla, replay of its behaviours on Optimizer, trace validation (SolveTrace.tla)")

p("S06", "A run stops exactly when a stopping criterion is met",
  "A solve executes at least one and at most the configured number of epochs; it stops after the first epoch at whose end a given criterion (max epochs, function evaluations, elapsed time, number of epochs without improvement) is reached and not before, and the criterion it reports is one that was reached.",
  ["histories", "configurations", "inputs"], "For every combination of the four criteria, every sequence of fitness values, evaluation counts and clock readings, given as a dictionary or as a (possibly used) Termination object, on a fresh or used optimizer.",
  "The tests start a few terminations by hand and check that the run ends; off-by-one, stale counters of an earlier solve and combinations of criteria are not observed.",
  [O, "mealpy/utils/termination.py", "mealpy/utils/history.py"],
  [("stopping decision", "mealpy/utils/termination.py: should_terminate, set_start_values"), ("loop", O + ": solve, check_termination"), ("epochs without improvement", "mealpy/utils/history.py: get_global_repeated_times")],
  ["number of epochs executed", "termination.message"],
  technique="TLC model checking of Solve.tla, replay of its behaviours on Optimizer with a scripted clock, trace validation")

p("S07", "Function evaluations are counted exactly",
  "At every epoch boundary the optimizer's count of function evaluations equals the number of times the objective function was really called in this solve, in every execution mode and for a fresh or used optimizer.",
  ["inputs", "configurations", "histories", "schedules"], "For " + ALL + ".",
  TESTS + "; the counter is compared with nothing.",
  [O, "mealpy/**/*.py"],
  [("counting", O + ": get_target, update_target_for_population, generate_agent, before_initialization")],
  ["optimizer.nfe_counter at each epoch boundary", "Problem.obj_func calls"],
  technique="TLC model checking of Solve.tla, replay of its behaviours on Optimizer, trace validation (SolveTrace.tla)")

p("S08", "The seed determines the run",
  "Solving the same problem with the same optimizer settings and the same seed gives the same run: the same positions evaluated in the same order (thread mode: per epoch the same set), the same populations, history and result. Global random state, hash randomization, what ran before in the process and other processes have no influence.",
  ["inputs", "configurations", "schedules"], "For " + ALL + ", in two processes with different hash seeds and different pollution of the global random generators.",
  "One run is never compared with another in the tests.",
  [O, "mealpy/utils/space.py", "mealpy/**/*.py"],
  [("one seeded generator", O + ": before_initialization (self.generator)"), ("problem and variables share it", "mealpy/utils/problem.py, mealpy/utils/space.py: set_seed"), ("every draw of every algorithm", "mealpy/*_based/*.py")],
  ["Problem.obj_func calls, pop, g_best, history of both runs"], technique="Product specification (Product.tla) checked by TLC over pairs of recorded runs")

p("S09", "An optimizer can be used again as if it were new",
  "solve() on an optimizer that was used before, on another or the same problem, in any mode, also when the earlier solve ended with an exception of the objective function, gives exactly the run a new optimizer would give. The results and histories which the caller kept from earlier solves stay as they were.",
  ["histories", "fault_sequences", "configurations"], "For " + ALL + ", and every sequence of solves, with failures at any objective call.",
  "No test solves twice with one instance and compares, or makes the objective function fail.",
  [O, "mealpy/utils/history.py", "mealpy/utils/problem.py", "mealpy/**/*.py"],
  [("reset at the start of a solve", O + ": check_problem, before_initialization, initialize_variables"), ("per-algorithm state", "mealpy/*_based/*.py: initialize_variables, before_main_loop")],
  ["both runs completely"], technique="TLC model checking of Solve.tla with repeated solves, replay on Optimizer, product specification over pairs of recorded runs")

p("S10", "Thread and process modes give the run of swarm mode",
  "For the optimizers that can run in parallel, thread and process mode evaluate the same positions in every epoch (in any order) as swarm mode and give the same populations, history and result, for any number of workers. Optimizers that cannot run in parallel fall back to single mode and give that run.",
  ["schedules", "configurations", "inputs"], "For every registered optimizer, problem kind, seed and worker count (process mode on a rotating sample of the classes).",
  "The tests check that the modes return an agent; results of the modes are never compared.",
  [O, "mealpy/**/*.py"],
  [("parallel evaluation", O + ": update_target_for_population, generate_population"), ("mode selection", O + ": check_mode_and_workers"), ("the parallel branch of each algorithm", "mealpy/*_based/*.py: evolve")],
  ["both runs completely", "optimizer.mode"], technique="Product specification (Product.tla) checked by TLC over pairs of recorded runs")

p("S11", "Maximizing -f is the mirror image of minimizing f",
  "Minimizing f and maximizing -f with the same seed is the same search: the same positions are evaluated in the same order, the populations hold the same solutions, the same solution is returned, and every fitness is the negative.",
  ["inputs", "configurations"],
  "For continuous problems, every seed and accepted parameters, up to the first epoch in which two candidates have equal fitness (ties are broken by position), and every registered optimizer except " + ", ".join(C["not_dual"]) + ", whose update uses the raw fitness values. For the optimizers that add a small constant to a fitness (" + ", ".join(k for k, v in C["dual_only"].items() if v["objectives"] == HUGE) + ") the statement is for objectives so large that the constant vanishes; for those that select with a roulette wheel over the fitness values (" + ", ".join(k for k, v in C["dual_only"].items() if v["objectives"] == NONNEG) + ") for objectives without negative values; for OriginalFDO for objectives that are never positive.",
  "Only minimization problems are run by the tests of the algorithms.",
  [O, "mealpy/utils/problem.py", "mealpy/**/*.py"],
  [("comparisons", O + ": compare_target, get_better_agent, get_special_agents, get_sorted_population"), ("direct comparisons in the algorithms", "mealpy/*_based/*.py")],
  ["both runs completely"], technique="Product specification (Product.tla, mirrored comparison) checked by TLC over pairs of recorded runs")

p("S13", "Fitness is the weighted sum of the objectives",
  "For one or several objectives, given as number, list or array, every reported fitness is the sum of the objectives of that solution times the weights of the problem, each once and in order; all comparisons and histories use this value.",
  ["inputs", "configurations"], "For " + ALL + ", two and three objectives with weights of any sign (quarters, so that the arithmetic is exact).",
  "The tests run one multi-objective problem and do not recompute any fitness.",
  ["mealpy/utils/target.py", "mealpy/utils/problem.py", O],
  [("weighting", "mealpy/utils/target.py: calculate_fitness, set_objectives"), ("weights", "mealpy/utils/problem.py: set_functions / get_target")],
  ["targets of all reported agents", "values returned by the objective function"], technique=TRACE)

p("S17", "The caller's inputs are respected and left alone",
  "solve() does not change the starting solutions, termination dictionary and parameters it is given; every starting solution is evaluated before anything else of the search, unchanged, and the result is never worse than the best of them. The starting solutions are the initial population.",
  ["inputs", "configurations"], "For every optimizer and starting solutions given as lists, tuples, an array or a list of arrays, in every mode; the last sentence not for optimizers that select their initial population themselves or add to it: " + ", ".join(C["own_initialization"]) + " (the result clause not for ImprovedSLO, ModifiedSLO and OppoTWO).",
  "One test passes starting solutions to one optimizer.",
  [O, "mealpy/utils/problem.py", "mealpy/**/*.py"],
  [("starting solutions", O + ": before_initialization, initialization"), ("per-algorithm initialization", "mealpy/*_based/*.py: initialization")],
  ["first objective calls", "optimizer.pop at the first epoch", "the caller's objects before and after"], technique=TRACE)

p("S18", "An exception of the objective function reaches the caller",
  "When the objective function raises, solve() ends with that same exception, in every mode; in sequential modes no further evaluation takes place. It is never swallowed, replaced or turned into a result.",
  ["fault_sequences", "crash_points", "configurations"], "For every optimizer, failing at any evaluation of the run.",
  "No test has an objective function that raises.",
  [O, "mealpy/**/*.py"], [("evaluation", O + ": get_target, update_target_for_population, generate_population"), ("loop", O + ": solve")],
  ["exception of solve()", "Problem.obj_func calls"], technique="TLC model checking of Solve.tla with failures, replay on Optimizer, trace validation (SolveTrace.tla)")

p("S19", "A saved and loaded optimizer is the same optimizer",
  "Saving an optimizer after (or before) a solve and loading it gives an optimizer with the same history, best solution, population, parameters, problem and counters, which continues to work: its next solve is the run that the original would have made. Saving does not change the original.",
  ["histories", "configurations"], "For every optimizer, kind of problem, and file name with or without extension.",
  "The tests save and load one optimizer and look at one attribute.",
  ["mealpy/utils/io.py", O, "mealpy/utils/history.py"], [("pickling", "mealpy/utils/io.py: save_model, load_model")],
  ["history, g_best, pop, get_parameters(), nfe_counter of both", "next run of the loaded optimizer"], technique="Product specification (Product.tla) checked by TLC over pairs of recorded runs")

p("S21", "Valid settings give a complete run",
  "With accepted hyper-parameters and a valid problem, solve() always ends by itself without raising, executes the configured number of epochs and returns an agent with a solution and a fitness.",
  ["inputs", "configurations"], "For every optimizer with its default and the recorded parameter settings per class (about ten random ones, every value of every option, about seven for populations of 5 to 9 agents), population sizes from 5 to 50, problems of 1 to 17 dimensions and all kinds of variables including search spaces with a handful of solutions in which the whole population soon agrees, objective values of any sign, scale and with ties, single/swarm/thread mode.",
  TESTS + "; index errors on small groups, odd sizes, discrete spaces or equal fitness do not occur there.",
  ["mealpy/**/*.py", O], [("every algorithm", "mealpy/*_based/*.py"), ("selection helpers", O)],
  ["solve()"], technique=TRACE)

p("S23", "Observing a run does not change it",
  "Logging to the console or to a file, storing populations, naming the optimizer or the problem does not change anything of the run: the same positions are evaluated, with the same populations, history and result.",
  ["configurations", "inputs"], "For every optimizer and kind of problem.",
  "Runs with and without logging are never compared.",
  [O, "mealpy/utils/logger.py", "mealpy/utils/history.py", "mealpy/utils/problem.py"], [("recording", O + ": track_optimize_step"), ("logging", "mealpy/utils/logger.py")],
  ["both runs completely"], technique="Product specification (Product.tla) checked by TLC over pairs of recorded runs")

from props_extra import add     # properties with a specification of their own
add(p)

NOTE = ("The real optimizers are run and recorded through their public surface; TLC evaluates the specification's clauses on every recorded step (total verdicts, altered recordings must be rejected). "
        "Trusted: TLC, the recorder (harness/rec.py), NumPy. Finite sample of runs chosen by VERIF_SEED.")
P.sort(key=lambda x: x["id"])
man = {"version": 1, "setup_cmd": "/opt/venv/bin/python harness/setup_check.py",
       "hooks": {"guard": "none", "enable": "no hooks: everything is observed through the public interface", "source_commits": []},
       "checks": [], "not_applicable": [],
       "notes": "Specification language: TLA+ (TLC). See DESIGN.md. Known findings and fixed defects: known_findings.jsonl."}
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for x in P:
        t, l, n = x.pop("_t"), x.pop("_l"), x.pop("_n")
        f.write(json.dumps(x) + "\n")
        man["checks"].append({"property": x["id"], "quick_cmd": f"/opt/venv/bin/python harness/check.py {x['id']} quick",
                              "thorough_cmd": f"/opt/venv/bin/python harness/check.py {x['id']} thorough", "technique": t, "level": l, "level_note": n or NOTE})
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
