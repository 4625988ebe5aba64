#!/usr/bin/env python3
# Writes properties.jsonl and MANIFEST.json. The text of every property lives here.
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SF, FO, CL, VA, GL, MA = ("src/SolveFinite.cc", "src/Formula.cc", "src/Clause.cc", "src/Variable.cc", "src/Global.cc", "src/Main.cc")
BF, BS, BC, BV, BG = ("bitvec/Formula.cc", "bitvec/SolveFinite.cc", "bitvec/Clause.cc", "bitvec/Variable.cc", "bitvec/Global.cc")
P = []
def prop(id, title, statement, over, text, why, files, mech, tech, level, note, state=(), observe=("stdout",), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=hook),
                  tech=tech, level=level, note=note))
TESTS = "the test suite compares SAT/UNSAT on 184 fixed files with one option set each"
ENUM = "exhaustive enumeration of all formulas of bounded families, each run on the real solver; verdicts compared with exhaustive search"
DEC = "the decision order is replaced through a hook (MVL_VERIF) that may answer any undetermined literal"
BOUND = "Complete within the stated families and bounds; nothing is claimed beyond them. Trusts the reference search (a few dozen lines) and the in-process runner."
LOGT = "Trusts the -verbose log to tell what the search does; C12 compares it with the solver's own record of open literals at each decision, and verdict checks judge the outcome independently. " + BOUND
prop("C01", "Verdict is right: non-chronological backtracking without watched literals",
     "For every well-formed extended-DIMACS formula, -solvenc without -wl answers SAT exactly if some assignment of domain values to the variables satisfies all clauses, and UNSAT otherwise. This holds for each decision heuristic it offers.",
     "inputs configurations", "every formula; default, -vsids, -vsids_pos and -lazy heuristics",
     TESTS + "; a wrong propagation, learning or backtracking step shows only on formulas that reach it",
     [FO, SF, CL, VA], [("non-chronological search", FO + ": NonChronoBacktrack and its helpers"), ("conflict analysis and clause learning", FO), ("unit detection by counting", FO)],
     ENUM, "exploration", BOUND)
prop("C02", "Verdict is right: watched literals",
     "For every well-formed extended-DIMACS formula, -solvenc -wl answers SAT exactly if the formula is satisfiable and UNSAT otherwise, with each decision heuristic it offers.",
     "inputs configurations", "every formula; -wl with the default, -vsids_pos and -lazy heuristics",
     TESTS + "; a watch that is lost or left on a false literal matters only on particular sequences of assignments and backtracks",
     [FO, CL, VA], [("two watched literals per clause", FO + ": WATCHED functions"), ("records of watching clauses per literal", VA)], ENUM, "exploration", BOUND)
prop("C03", "Verdict is right: chronological backtracking",
     "For every well-formed extended-DIMACS formula, -solvech answers SAT exactly if the formula is satisfiable and UNSAT otherwise, with each decision heuristic it offers.",
     "inputs configurations", "every formula; default and -lazy heuristics", TESTS,
     [FO, SF], [("chronological search", FO + ": ChronoBacktrack")], ENUM, "exploration", BOUND)
prop("C04", "Restarts keep the search sound and are taken when due",
     "With -restarts N (or -restart N), for every N of at least 1, the solver still ends and gives the right verdict and a right model. A restart happens when N backtracks have happened since the last one, and never when the option is not given.",
     "inputs configurations histories", "every formula, threshold and non-chronological engine (with and without -wl, bitvec)",
     "no test uses restarts: " + TESTS, [FO, SF, GL, BF], [("restart after a number of backtracks", FO), ("option parsing", GL)],
     ENUM + ", for every restart threshold up to a bound", "exploration", BOUND)
prop("C05", "A printed model is a model",
     "Whenever a solver answers SAT it prints exactly one value of its domain for every variable (the bitvec solver: a non-empty set of values), and these satisfy every clause of the input. Its own model check then says so.",
     "inputs configurations", "every satisfiable formula, engine and heuristic", "the tests look only at the verdict, not at the model",
     [FO, SF, BF], [("recording and printing the model", FO + ": printing of the assignment"), ("model check", FO + ": checking of the assignment")], ENUM + "; the printed model is evaluated clause by clause", "exploration", BOUND)
prop("C06", "The solver's own model check is right about every assignment",
     "The check of the assignment that a solver runs after answering SAT accepts every total assignment that satisfies the input formula and rejects every other one. An assignment that leaves variables open is accepted if each clause has a literal that is true whatever they are given, and rejected if some choice falsifies a clause. A wrong assignment is never reported as correct.",
     "inputs fault_sequences", "every formula x every total or partial assignment handed to the check in place of the one found", "in the tests the check only ever sees models, so it could as well accept everything",
     [FO, SF], [("model check", FO), ("assignment hand-over", SF)], "exhaustive fault enumeration: every total and partial assignment is substituted at the hand-over between search and check", "fault_enumeration",
     BOUND, hook="mvl_verif_assign: replaces the assignment before it is checked")
prop("C07", "Verdict and model are right whatever is decided",
     "The verdict and the model are right for every order in which the search may pick its next literal, equal or not-equal, not only for the orders the built-in heuristics produce. No choice of undetermined literals makes any engine wrong or non-terminating.",
     "schedules inputs", "every formula x every sequence of choices of undetermined literals x engine", "a heuristic takes one path through the search tree of each formula; the tests thus reach one of many interleavings of decisions, propagation and backjumps",
     [FO, VA], [("search loop", FO), ("decision selection", FO)], "stateless model checking of the real search: all decision sequences that deviate from the heuristic a bounded number of times within a depth", "exploration",
     BOUND + " The hook only substitutes another undetermined literal.", hook="mvl_verif_decide: chooses the decision literal")
prop("C08", "Every learned clause follows from the input formula",
     "Every clause that the non-chronological search learns is satisfied by every model of the input formula, in every run and after any history of conflicts, backjumps and restarts.",
     "inputs schedules histories", "every conflict of every run", "the verdict stays right on most formulas even if a learned clause is not implied; the tests do not look at learned clauses",
     [FO, CL], [("resolution of the conflict clause with reasons", FO + ": resolve, analyzeConflict, learnClause")], "explicit-state monitor over all runs and bounded decision deviations: each learned clause is checked against all models of the formula", "model_checking", LOGT, observe=("-verbose log",), hook="mvl_verif_decide")
prop("C09", "Learned clauses assert after the backjump",
     "When the search learns a clause, all its literals are false, exactly one of them became false at the current decision level, and the search jumps back to the highest level among the others, where the clause forces its remaining literal.",
     "inputs schedules histories", "every conflict of every run", "jumping back too far or too little mostly costs time or is repaired by later conflicts, so verdicts on a few files do not show it",
     [FO, CL], [("backtrack level of a learned clause", FO + ": backtrackLevel and isUniquePoint-like tests"), ("undo of assignments above a level", FO + ": backtracking")],
     "explicit-state monitor over all runs and bounded decision deviations: trail, levels and each learned clause are tracked", "model_checking", LOGT, observe=("-verbose log",), hook="mvl_verif_decide")
prop("C10", "Every assignment has a reason",
     "Each literal the search assigns is a decision on an undetermined literal, is forced by an input or learned clause whose other literals are all false, or is the only value left for its variable. Each conflict it acts on is a clause all of whose literals are false.",
     "inputs schedules histories", "every assignment of every run, all engines", "an unjustified assignment changes the verdict only where it removes all models",
     [FO, CL, VA], [("unit clause detection", FO), ("entailed values", FO + ": checkEntail"), ("conflict detection", FO)],
     "explicit-state monitor over all runs and bounded decision deviations: each event of the log is checked against an abstract transition system", "model_checking", LOGT, observe=("-verbose log",), hook="mvl_verif_decide")
prop("C11", "Nothing is decided before propagation is complete",
     "Whenever the search makes a decision, no input or learned clause is falsified by the current assignments and none has all literals but one false. Unit propagation is complete, also after backjumps and restarts and with watched literals.",
     "inputs schedules histories", "every decision of every run, all engines of src", "missed propagation costs only time in most runs; with watched literals it appears after particular sequences of backjumps",
     [FO, CL, VA], [("unit and conflict detection", FO), ("watch invariants", FO)],
     "explicit-state monitor over all runs and bounded decision deviations: at each decision every clause is evaluated on the reconstructed trail", "model_checking", LOGT, observe=("-verbose log",), hook="mvl_verif_decide")
prop("C12", "Backtracking restores exactly the state of the level it returns to",
     "At every decision the solver's own record of which values are still possible equals what follows from the assignments made and not yet undone; backtracking, backjumping and restarting leave nothing behind and lose nothing.",
     "inputs schedules histories", "every decision of every run, all engines", "a value that stays removed after backtracking loses models only in some subtrees; no test looks inside",
     [FO, VA, BF, BV], [("undo", FO + ": undoTheory, undoState"), ("value status", VA)],
     "explicit-state conformance check: the hook exposes the solver's open literals at each decision; compared with the abstract state replayed from the log, over all runs and bounded deviations", "model_checking", LOGT, observe=("decision hook", "-verbose log"), hook="mvl_verif_decide")
prop("C13", "The search ends and never repeats itself",
     "Every run ends. It never learns the same clause twice, and it answers UNSAT only after a conflict that needs no decision (or with no branch left to try) and SAT only when the assignments satisfy every clause.",
     "inputs schedules histories", "every run, all engines", "non-termination after a particular history of conflicts cannot be seen from files that are solved quickly",
     [FO, SF, BF], [("search loop", FO), ("learning", FO)],
     "explicit-state monitor over all runs and bounded decision deviations, with a bound on steps (a run that exceeds it is a violation)", "model_checking", LOGT + " Termination is judged against a horizon far above the longest legitimate run.", hook="mvl_verif_decide")
prop("C14", "The time limit stops the search with TIMEOUT, and only then",
     "With -time T the run ends with TIMEOUT soon after T seconds have passed at whatever point of the search that happens, printing no model. If less than T seconds pass the report is that of a run without limit.",
     "schedules fault_sequences inputs", "every point of the search at which the limit passes, every formula and engine", "the tests never reach their limit; real time cannot be steered to a point of the search",
     [FO, SF, GL, BF, BS], [("clock check in the search loop", FO), ("reporting of TIMEOUT", SF)], "exhaustive fault enumeration with a virtual clock: the limit is made to pass at each clock read of each run in turn", "fault_enumeration", BOUND, observe=("stdout",))
prop("C15", "Chronological backtracking visits every branch once",
     "In a -solvech run each conflict returns the search to the most recent decision whose other branch is untried, and takes that branch. No branch is taken twice, and UNSAT is answered only when no untried branch is left.",
     "inputs schedules histories", "every conflict of every -solvech run", "skipping a branch changes the verdict only if all models lie in it",
     [FO, SF], [("chronological backtracking", FO + ": ChronoBacktrack")], "explicit-state monitor of the search tree over all runs", "model_checking", LOGT, observe=("-verbose log",))
prop("C16", "The layout of the input does not matter",
     "Comments, blank lines, tabs, runs of blanks, CR LF line ends, a missing newline at the end, 'p cnf' or 'p mvcnf', and lines of any length leave the report (verdict, model and counters) unchanged.",
     "inputs", "every formula x every such layout x engine", "the test files share one layout and have short lines",
     [FO, GL, BF], [("reading lines of the input", FO + ": buildFormula/parsing"), ("same in bitvec", BF)], "exhaustive enumeration of layout changes at every position, alone and in pairs, on the real parser", "exploration", BOUND)
prop("C17", "The order of clauses and literals does not matter for the verdict",
     "Reordering the clauses of a formula or the literals within clauses, or repeating them, leaves the verdict as it is, and a printed model is a model of the formula, for every engine.",
     "inputs", "every formula x every order of clauses and rotation of literals", "each test file has one order; watched literals start on the first two literals and counting depends on the order",
     [FO, BF], [("initial watches", FO), ("clause lists", FO)], "exhaustive enumeration of orders of small formulas on the real solver", "exploration", BOUND)
prop("C18", "-verbose changes nothing but the log",
     "Verdict, model and statistics are the same with and without -verbose, for every engine and heuristic.", "inputs configurations", "every formula, engine and heuristic",
     "no test compares the two", [FO, SF, BF], [("logging", FO)], "exhaustive enumeration of formulas of bounded families, run with and without the option", "exploration", BOUND)
prop("C19", "Runs are deterministic",
     "The output of the solver on a given input and options (apart from measured times) is the same every time, whatever memory happened to contain before, wherever the objects lie in it, and whatever the time of day.",
     "inputs fault_sequences", "every formula and engine x contents of fresh heap and stack memory", "uninitialised reads mostly find zeros in tests",
     [FO, CL, VA, GL, BF, BC, BV], [("initialisation of members", CL), ("initialisation of options", GL)], "exhaustive enumeration of formulas x memory contents chosen by the runner; outputs compared byte by byte", "fault_enumeration", BOUND)
prop("C20", "The reported statistics are those of the run",
     "The numbers of variables, clauses, decisions, unit propagations, entailed values, backtracks and restarts that a solver prints equal the numbers of these things in the formula and in the run it made.",
     "inputs histories", "every run of every engine and heuristic", "tests ignore statistics", [FO, SF, BF], [("counters", FO), ("printing", SF)],
     "explicit-state monitor over all runs: events are counted and compared with the printed numbers", "model_checking", LOGT, observe=("stdout", "-verbose log"))
prop("C21", "-b2f writes the same problem in extended DIMACS",
     "For every DIMACS file, -b2f writes a well-formed extended-DIMACS file that declares domain 2 for every variable of the file, has the same number of clauses in the same order, and is satisfied by exactly the same assignments (1 for true, 0 for false).",
     "inputs", "every Boolean formula and layout DIMACS permits (clauses over several lines, several per line, comments, %-trailer, no final 0)", "no test converts anything",
     ["src/Boolean2Finite.cc"], [("reading DIMACS", "src/Boolean2Finite.cc"), ("writing domains and clauses", "src/Boolean2Finite.cc")], "exhaustive enumeration of small formulas x layouts on the real converter; all assignments compared", "exploration", BOUND, observe=("output file",))
prop("C22", "-linenc preserves the problem",
     "For every extended-DIMACS file with at least one clause, -linenc writes a DIMACS file whose header gives the true numbers of variables and clauses and which has exactly one model for each model of the input; so it is satisfiable exactly if the input is.",
     "inputs", "every formula, any mix of domain sizes", "no test converts anything", ["src/LinearEncode.cc"], [("index of each variable's block", "src/LinearEncode.cc"), ("at-least-one and chain clauses", "src/LinearEncode.cc")],
     "exhaustive enumeration of small formulas on the real converter; all models of the output counted", "exploration", BOUND, observe=("output file",))
prop("C23", "-quadenc preserves the problem",
     "For every extended-DIMACS file with at least one clause, -quadenc writes clauses over atoms v=d whose header gives the true numbers of atoms and clauses, and whose models are exactly those that make one atom per variable true and correspond to the models of the input.",
     "inputs", "every formula, any mix of domain sizes", "no test converts anything", ["src/QuadraticEncode.cc"], [("at-least-one and at-most-one clauses", "src/QuadraticEncode.cc"), ("literal translation", "src/QuadraticEncode.cc")],
     "exhaustive enumeration of small formulas on the real converter; all models of the output compared", "exploration", BOUND, observe=("output file",))
prop("C24", "-genben generates finite-domain problems as asked for",
     "For every outcome of the random numbers, -genben -bool 1 ends and writes a well-formed extended-DIMACS file with the requested numbers of variables, clauses and literals per clause (over distinct variables), domains of the requested size (1 to that size with -drand 1), and values within the domains. With -sat 1 or no -sat it is satisfiable, and every literal and domain size the arguments allow can occur.",
     "schedules configurations", "every sequence of random numbers and every argument combination", "no test generates anything, and a run shows one sequence of random numbers",
     ["src/GenBenFunc.cc", GL], [("drawing the solution, domains and clauses", "src/GenBenFunc.cc: GenBenFin"), ("options", GL)],
     "exhaustive exploration of the answers of rand() up to a bound (all prefixes, all bounded deviations from fair streams) on the real generator", "fault_enumeration",
     BOUND + " That everything can occur is an existential claim, shown by witnesses.", observe=("output file",))
prop("C25", "-genben generates Boolean problems as asked for",
     "For every outcome of the random numbers, -genben -bool 0 ends and writes a well-formed DIMACS file with the requested numbers of variables, clauses and (distinct) literals per clause. With -sat 1 or no -sat it is satisfiable, and every literal can occur.",
     "schedules configurations", "every sequence of random numbers and every argument combination", "no test generates anything, and a run shows one sequence of random numbers",
     ["src/GenBenFunc.cc", GL], [("drawing the solution and clauses", "src/GenBenFunc.cc: GenBenBool"), ("options", GL)],
     "exhaustive exploration of the answers of rand() up to a bound on the real generator", "fault_enumeration", BOUND, observe=("output file",))
prop("C26", "Verdict and model are right: bitvec solver",
     "For every well-formed extended-DIMACS formula whose domains have at most 64 values, the solver in bitvec/ answers SAT exactly if the formula is satisfiable, with a model, and UNSAT otherwise, with each heuristic.",
     "inputs configurations", "every formula within the domain limit; both heuristics", "no test runs the bitvec solver",
     [BF, BS, BC, BV], [("search over bit sets", BF), ("clause status", BC), ("value sets", BV)], ENUM, "exploration", BOUND)
prop("C27", "The bitvec search is sound step by step, whatever is decided",
     "In the bitvec solver every learned clause follows from the input, every assignment and conflict is justified, propagation is complete before each decision, and jumps go to the right level; for every order of decisions, with and without restarts, verdict and model are right.",
     "schedules inputs histories", "every run x every sequence of decisions", "no test runs the bitvec solver",
     [BF, BC, BV], [("search loop", BF), ("resolution on bit sets", BC), ("undo", BF)], "explicit-state monitor over all runs and bounded decision deviations", "model_checking", LOGT, observe=("-verbose log",), hook="mvl_verif_decide")
prop("C28", "Every value of a large domain works in the bitvec solver",
     "For domain sizes 1 to 64 the bitvec solver handles each value alike: literals on any value, including the highest, mean that value. For a larger domain it reports an error and gives no verdict.",
     "inputs", "every domain size and value", "no test runs the bitvec solver; shifts beyond 31 bits go wrong only for large domains",
     [BF, BV, BC, BG], [("one bit per value", BV), ("limit", BF)], "exhaustive enumeration of domain sizes and values on the real solver", "exploration", BOUND)
prop("C29", "No input makes the programs misuse memory",
     "On every well-formed input, with every engine, heuristic and option, the solver, the converters and the generator neither read nor write outside their objects, use no freed memory, and have no undefined arithmetic.",
     "inputs configurations", "every formula, engine and heuristic", "the tests run without sanitizers, and silent overruns do not change their verdicts",
     [FO, CL, VA, GL, SF, BF, BC, BV, "src/Boolean2Finite.cc", "src/LinearEncode.cc", "src/QuadraticEncode.cc", "src/GenBenFunc.cc"], [("buffers and arrays", FO)], "exhaustive enumeration of bounded families on the real solver built with AddressSanitizer, UBSan and checked containers", "exploration",
     BOUND + " What the sanitizers do not see is not seen (uninitialised reads: C19).")
prop("C30", "Decisions follow the documented heuristic",
     "Each decision of each run is one that the selected heuristic allows: a literal of highest score for the VSIDS variants, where scores count occurrences, those in learned clauses included, and are halved at each learned clause; a literal of an open clause for the lazy heuristic; an equality whose occurrences in open clauses, less those of its negation, are most for the default one.",
     "inputs configurations histories", "every decision of every run", "a wrong decision order costs only time", [FO, VA, BF], [("decision selection", FO), ("scores", VA)],
     "explicit-state monitor over all runs: scores and counts recomputed from input and learned clauses", "model_checking", LOGT, observe=("-verbose log",))
prop("C31", "The optimized build behaves as the debug build",
     "The -O3 build the README recommends gives the same output as an unoptimized one on every input: verdict, model, statistics and log do not depend on compiler optimization.",
     "inputs configurations", "every formula, engine and heuristic", "the tests run the -O0 build only; undefined behaviour shows under -O3",
     [FO, CL, VA, SF, BF], [("functions with results", FO)], "exhaustive enumeration of bounded families on both builds; outputs compared byte by byte", "exploration", BOUND)
prop("C32", "Options do what they say, in any order; bad files are errors",
     "Every option has its effect for every value and wherever it stands on the command line, and order changes nothing: -time T limits to T seconds, -restarts N restarts at every Nth backtrack, and options of the generator left out have their documented defaults. An input or output file that cannot be opened gives an error message and a non-zero exit (the generator: an error message), never a verdict, and the help menu ends on every input.",
     "configurations inputs", "every subset and order of the options, many values; every short menu input", "the tests use one order of options and few values",
     [GL, MA, BG, SF], [("option parsing", GL), ("help menu", GL + ": PrintHelp")], "exhaustive enumeration of option subsets, orders, values on both sides of each limit, and of menu inputs", "exploration", BOUND, observe=("stdout", "exit status"))
prop("C33", "The tools work together",
     "Converting a Boolean problem with -b2f and solving it, encoding a finite problem with -linenc, converting the result with -b2f and solving it, and generating a satisfiable problem and solving it give the verdict of the original problem with every engine.",
     "inputs configurations", "every formula through every pipeline and engine", "no test combines tools",
     ["src/Boolean2Finite.cc", "src/LinearEncode.cc", "src/GenBenFunc.cc", FO, BF], [("file formats", FO)], "exhaustive enumeration of bounded families through the real tools", "exploration", BOUND, observe=("stdout", "output file"))
prop("C34", "Failing files are reported, never answered",
     "If reading the input fails at any point, the solver or converter reports an error with a non-zero exit and gives no verdict; if writing the output fails at any point, the converters and the generator report an error with a non-zero exit. Short and interrupted transfers change nothing.",
     "fault_sequences inputs", "every read and write of a run failing in turn", "no test makes a file fail",
     [FO, BF, "src/Boolean2Finite.cc", "src/LinearEncode.cc", "src/QuadraticEncode.cc", "src/GenBenFunc.cc"], [("stream state after reading and writing", FO)],
     "exhaustive fault enumeration: each file transfer of each run fails in turn, once or for good, or is cut short", "fault_enumeration", BOUND, observe=("stdout", "exit status", "output file"))
exec(open(os.path.join(V, "tools", "more.py")).read()) if os.path.exists(os.path.join(V, "tools", "more.py")) else None
P.sort(key=lambda p: p["id"])
KEYS = ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({k: p[k] for k in KEYS}) + "\n")
NA = []
M = dict(version=1, setup_cmd="./check.sh --setup",
         hooks=dict(guard="MVL_VERIF", enable="check.sh compiles src/ and bitvec/ into shared libraries with -DMVL_VERIF", source_commits=["f0b2145"]),
         checks=[dict(property=p["id"], quick_cmd="VERIF_TIER=quick ./check.sh " + p["id"], thorough_cmd="VERIF_TIER=thorough ./check.sh " + p["id"],
                      evidence_file="evidence/%s.json" % p["id"], technique=p["tech"], level=p["level"], level_note=p["note"]) for p in P],
         not_applicable=NA, notes="See DESIGN.md. Replay a recorded case with ./check.sh --replay FILE.")
json.dump(M, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
