"""Writes properties.jsonl and MANIFEST.json from the one table below: python3 tools/props.py"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
E = "amzn-smt-eager-arithmetic/src/"
U = "amzn-smt-string-fct-updater/src/"
T = "amzn-smt-string-transformer/src/"
P = "amzn-smt-prediction/"
PROPS = []
NOT_APPLICABLE = []


def p(id, title, statement, over, text, why, files, mechanism, observe, technique, note):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mechanism=mechanism, observe=observe, technique=technique, note=note))


EAGER_TRUST = "Trusts the SMT-LIB evaluator in vh/smt.py (cross-checked against z3), z3 for unsat verdicts, and the stand-in SAT solver tools/fakesat.cpp."

p("A01", "A satisfying model reported by the eager solver satisfies the script",
  "Whenever the eager arithmetic solver answers sat for a linear-integer script, the model it prints defines every constant it mentions with a value of the declared sort, and together with any completion for unmentioned constants it makes every assertion of the original script true. This holds for whichever satisfying assignment the SAT solver happens to return.",
  ["inputs", "programs", "schedules"], "Every QF_LIA/QF_IDL script in the supported fragment and every satisfying assignment a correct SAT solver may return for its encoding.",
  "The tests solve nine fixed scripts with one deterministic SAT solver and check models on a handful of them; a wrong adder carry, sign bit, normalisation or decoding shows only for particular coefficients, widths and assignments.",
  [E + "lib.rs", E + "encoding.rs", E + "canonicalize.rs", E + "stats.rs"],
  [("normalisation of constraints", E + "canonicalize.rs: canonicalize_plus_inner, normalize_constraint"),
   ("bit-level encoding of sums and comparisons", E + "encoding.rs: encode_plus_bitwise, encode_gte, encode_eq, adder"),
   ("decoding of the assignment", E + "encoding.rs: decode; " + E + "lib.rs: reconstruct")],
  ["amzn-smt-eager-arithmetic solve: stdout"],
  "property-based testing: random scripts x random satisfying assignments, model evaluated by an independent evaluator", EAGER_TRUST)

p("A02", "The eager solver never answers unsat for a satisfiable script",
  "The eager arithmetic solver gives every script of its supported fragment a verdict, and an unsat answer is always right: no linear-integer script that has an integer solution, however large the smallest solution is, is ever reported unsatisfiable.",
  ["inputs", "programs"], "Every script in the supported fragment, including those whose only solutions need large or many different values.",
  "Completeness rests on a solution-size bound derived from counts and magnitudes of all constraints; the tests only try small solutions, for which a bound that is too small is still large enough.",
  [E + "stats.rs", E + "encoding.rs", E + "canonicalize.rs"],
  [("solution size bound", E + "stats.rs: determine_special_case, solution_size_upper_bound_bits"),
   ("statistics per group of variables", E + "stats.rs: visit_constraint, unify_values"),
   ("variable width", E + "encoding.rs: new_int_var")],
  ["amzn-smt-eager-arithmetic solve: stdout"],
  "property-based testing: scripts with planted solutions at the bound's edge, plus random scripts differential against z3", EAGER_TRUST)

p("A03", "The emitted propositional problem is well formed and equisatisfiable",
  "The encode command always writes a syntactically valid DIMACS CNF problem (consistent header, literals in range, clauses terminated) that is satisfiable exactly when the original script is.",
  ["inputs", "programs"], "Every script in the supported fragment.",
  "The tests run the in-process solver and never look at the emitted text for more than one instance.",
  [E + "lib.rs", E + "encoding.rs", E + "main.rs"],
  [("CNF emission", E + "lib.rs: encode, encode_inner"), ("encoding", E + "encoding.rs: Encoding::encode")],
  ["amzn-smt-eager-arithmetic encode: CNF output"],
  "property-based testing: strict DIMACS parser plus SAT solve, differential against planted solutions and z3", EAGER_TRUST)

p("A04", "No SAT-solver failure or damaged input turns into a verdict",
  "If the external SAT solver is missing, dies, or produces output that is not a definite, complete answer, or if the instance is missing, truncated or unbalanced, the eager solver reports an error instead of printing sat, unsat or a model. A definite answer of the SAT solver is passed on faithfully.",
  ["fault_sequences", "inputs", "crash_points"], "Every script, and every exit status and output of the external solver or damage to the instance file.",
  "Only the in-process solver and intact files are exercised by the tests.",
  [E + "lib.rs", E + "main.rs"],
  [("choice and invocation of the solver", E + "main.rs: main"), ("interpretation of the result", E + "lib.rs: solve")],
  ["amzn-smt-eager-arithmetic solve: stdout, stderr, exit status"],
  "fault injection with generated solver behaviours (property-based)", EAGER_TRUST + " Faults are drawn from a fixed family of behaviours.")

p("A05", "Uninterpreted functions are treated as functions in models and verdicts",
  "Every supported script with uninterpreted functions gets a verdict; a printed model gives each function one table under which every assertion holds, so equal arguments give equal results, and an unsat answer is right.",
  ["inputs", "programs"], "Every script applying uninterpreted functions with Int and Bool arguments and results, nested or under conditionals and lets.",
  "Two small scripts with one unary function are tested; congruence between several, nested or multi-argument applications is not.",
  [E + "lib.rs", E + "encoding.rs", E + "canonicalize.rs"],
  [("Ackermann-style reduction", E + "lib.rs: encode_inner (ackermannization)"), ("function tables in the model", E + "lib.rs: reconstruct")],
  ["amzn-smt-eager-arithmetic solve: stdout"],
  "property-based testing: function tables evaluated in all assertions; unsat differential against z3", EAGER_TRUST)

p("A06", "Bit-vector ordering constraints are decided as unsigned comparisons",
  "For scripts made of unsigned less-or-equal constraints over bit-vectors of any width, alone or mixed with integer constraints, the verdict is right and a printed model has values of the declared width that satisfy every assertion.",
  ["inputs", "programs"], "Every such script, all widths, and all notations for constants.",
  "Three fixed scripts with one width are tested, none with the order of bits in a binary constant mattering.",
  [E + "encoding.rs", E + "lib.rs"],
  [("bit-vector constants and variables", E + "encoding.rs: constant_bits, bit_vec_bits, variable_bits"), ("comparison", E + "encoding.rs: encode_bvuge, encode_unsigned_gte_bitwise"), ("decode", E + "encoding.rs: decode")],
  ["amzn-smt-eager-arithmetic solve: stdout"],
  "property-based testing: models evaluated, unsat checked against planted assignments and z3", EAGER_TRUST)

p("A07", "Constructs outside the supported fragment never get a wrong answer",
  "A script that uses anything outside the supported fragment (non-linear terms, quantifiers, reals, other theories, macros, incremental commands) is either refused with an error or answered correctly; it never gets a wrong verdict or a model that violates it.",
  ["inputs", "programs"], "Every script, whatever the construct and wherever it occurs in the script.",
  "The tests check one rejected operator; silently ignoring an unsupported construct in some position would pass them all.",
  [E + "stats.rs", E + "encoding.rs", E + "lib.rs", E + "canonicalize.rs"],
  [("refusal of incremental scripts", E + "lib.rs: reject_incremental"), ("rejection while collecting statistics", E + "stats.rs: visit_core_op, visit_theory_op, invalid"), ("rejection while encoding", E + "encoding.rs: fold_core_op, fold_theory_op, fold_quantifier")],
  ["amzn-smt-eager-arithmetic solve: stdout, exit status"],
  "property-based testing: supported scripts with injected unsupported constructs, verdict differential against z3", EAGER_TRUST)

p("A08", "The solution-bound parameters describe each group of variables exactly",
  "The solver prints, for each group of variables connected by shared constraints, the number of variables and constraints, the largest coefficient and constant, the number and width of non-difference constraints, and a bit width that is no smaller than the documented bound for them. Groups that share no variable do not influence each other.",
  ["inputs", "programs"], "Every script of linear constraints, in any surface form, order and grouping.",
  "One fixed script with two partitions is tested.",
  [E + "stats.rs", E + "canonicalize.rs", E + "main.rs"],
  [("statistics per constraint", E + "stats.rs: visit_constraint"), ("joining groups", E + "stats.rs: unify_values, set_current_patition"), ("bound", E + "stats.rs: solution_size_upper_bound_bits")],
  ["amzn-smt-eager-arithmetic encode and solve: stdout"],
  "property-based testing against a reference model of the documented formulas", "Reference formulas are written independently from the README and the published bound; one bit of slack above is allowed.")

p("A09", "Satisfiability-preserving rewriting does not change the eager verdict",
  "Renaming or reordering symbols, reordering, duplicating or splitting assertions, flipping comparisons, moving terms across, and similar equivalences never change the eager solver's verdict.",
  ["inputs", "programs"], "Every supported script and every sequence of such rewritings.",
  "No test compares two forms of one script.",
  [E + "canonicalize.rs", E + "stats.rs", E + "encoding.rs"],
  [("canonical form", E + "canonicalize.rs: fold_core_op, fold_theory_op, normalize_constraint")],
  ["amzn-smt-eager-arithmetic solve: stdout"],
  "property-based testing: metamorphic relation between a script and a rewriting of it", EAGER_TRUST)

UT = "Trusts the independent S-expression reader and reference converter in vh/updater.py."
p("U01", "Modernizing renames exactly the old string functions and nothing else",
  "Modernizing a script replaces every old-style string and regular-expression function application by its standard name and leaves every other symbol, literal, binder, command and their order unchanged.",
  ["inputs", "programs"], "Every well-formed script, with the old names at any position and nesting, also where the same spelling is a quoted symbol, a literal or a user's own symbol.",
  "The tests contain one hand-written script.",
  [U + "transpiler.rs"], [("renaming", U + "transpiler.rs: fold_uninterpreted_func, fold_var, fold_theory_op")],
  ["amzn-smt-string-fct-updater: output file"],
  "property-based testing against a reference converter on parsed scripts", UT)
p("U02", "Old string escapes are converted to the same characters",
  "Every old-style escape in a string literal becomes the standard escape denoting the same character, and every other character of every literal, including backslashes that start no escape and doubled quotes, stays as it is.",
  ["inputs"], "Every string literal content: all escape forms, truncated escapes, adjacency with other characters, and the end of the literal.",
  "Six literals are tested; the conversion is a hand-written scanner whose edge cases are at the ends of partial matches.",
  [U + "transpiler.rs"], [("scanner", U + "transpiler.rs: convert_z3escapes, fold_const")],
  ["amzn-smt-string-fct-updater: output file"],
  "property-based testing: literals from an escape grammar against a reference reading", UT)
p("U03", "Modernizing is idempotent and independent of layout",
  "Modernizing an already modern script leaves its meaning unchanged, modernizing twice gives what modernizing once gives, and white space and comments in the input do not influence the result.",
  ["inputs", "histories"], "Every script, in any layout, converted any number of times.",
  "Not tested at all.",
  [U + "transpiler.rs", U + "main.rs"], [("conversion", U + "transpiler.rs: modernize_string_fcts")],
  ["amzn-smt-string-fct-updater: output file"],
  "property-based testing: metamorphic relations (idempotence, layout invariance, identity on modern scripts)", UT)
p("U04", "A missing logic is declared once, in the right place, and covers the script",
  "When a script names no logic, modernizing adds exactly one logic declaration, after leading option settings and before any declaration, definition or assertion: strings with linear integer arithmetic if an arithmetic operator or comparison occurs anywhere in its terms, plain strings otherwise. A logic that the script names is kept and none is added.",
  ["inputs", "programs"], "Every command sequence and every mixture of string, integer and uninterpreted symbols.",
  "Two placements and one logic are tested.",
  [U + "transpiler.rs"], [("guess", U + "transpiler.rs: modernize_string_fcts"), ("placement", U + "transpiler.rs: modernize_string_fcts")],
  ["amzn-smt-string-fct-updater: output file"],
  "property-based testing against a reference model of the documented rule", UT)
p("U05", "Old three-argument loops become the indexed loop with the same bounds",
  "Every old application of the bounded-repetition operator to a regular expression and two numerals becomes the standard indexed form with the same bounds in the same order over the same, also converted, regular expression.",
  ["inputs", "programs"], "Every nesting of loops and every pair of bounds, at any position in the script.",
  "One application is tested.",
  [U + "transpiler.rs"], [("loop conversion", U + "transpiler.rs: fold_uninterpreted_func")],
  ["amzn-smt-string-fct-updater: output file"],
  "property-based testing against a reference converter", UT)
p("U06", "Modernizing writes exactly one result file and never harms another",
  "Modernizing a problem writes its complete result beside the input, as name_upt with the input's extension, replacing any left-over there, and changes no other file, including the input. An input that is missing or does not parse yields an error and changes nothing.",
  ["inputs", "histories", "fault_sequences"], "Every file name and directory layout, relative or absolute paths, left-over results, and damaged or missing inputs.",
  "The command line is not tested.",
  [U + "main.rs", U + "transpiler.rs"], [("file handling", U + "main.rs: main")],
  ["amzn-smt-string-fct-updater: directory contents, exit status"],
  "property-based testing of the command line over generated directories and damaged inputs", UT)

PT = "Trusts the reference computations in vh/prediction.py; external solvers and the prediction service are stand-ins whose calls are recorded."
S = P + "scripts/"
p("P01", "String-function counts are exact",
  "The off-line features computed for a problem give, for each string and regular-expression function in the table's header, the exact number of its occurrences in the asserted formulas.",
  ["inputs", "programs"], "Every script: every function, nesting, sharing, quantifier, binding and multiple assertions.",
  "There are no tests for this crate.",
  [P + "src/main.rs"], [("counting visitor and table output", P + "src/main.rs")],
  ["amzn-smt-prediction: off_features CSV"],
  "property-based testing against an independent occurrence counter", PT)
p("P02", "Each listed benchmark gets its own feature row, in order",
  "Running the feature extraction over a list of benchmarks writes the header documented for the chosen dataset and exactly one row per benchmark, in list order, holding that benchmark's own counts. A benchmark that cannot be read or parsed makes the run fail instead of shifting or mixing up rows.",
  ["inputs", "histories", "fault_sequences"], "Every list length, order, repetition and dataset kind, and every position of a failing benchmark.",
  "There are no tests for this crate.",
  [P + "src/main.rs"], [("list processing and CSV", P + "src/main.rs")],
  ["amzn-smt-prediction: off_features CSV, exit status"],
  "property-based testing against a reference table over generated benchmark lists", PT)
p("P03", "Solver-output line lengths reach the on-line feature table unchanged",
  "For every listed benchmark the on-line feature pipeline (run solver, count words per line, bucket the counts) yields exactly one row, in list order, whose buckets count the lines of that benchmark's own solver output by their number of words; every counted line falls in exactly one bucket. CVC4 runs with its string traces, and with finite model finding unless that is turned off. A solver that reaches its time limit is ended, and what it printed until then, possibly nothing, counts.",
  ["inputs", "histories", "configurations", "crash_points"], "Every list of benchmark paths and names (also names containing letters of the extension), every solver output and time limit reached, for both solvers and both string configurations.",
  "These scripts have no tests.",
  [S + "get_solver_output.py", S + "get_word_counts.py", S + "get_word_count_features.py"],
  [("collecting output", S + "get_solver_output.py"), ("word counts", S + "get_word_counts.py"), ("buckets", S + "get_word_count_features.py")],
  ["word count files, on_features CSV"],
  "property-based testing of the script pipeline with stand-in solvers against reference counts", PT)
p("P04", "Eager-versus-lazy rows combine each benchmark's own data",
  "Cleaning the eager-versus-lazy data yields one row per benchmark in the order of the results table: its name, a solver with its smallest time, and the combination of exactly its own parameter sets. Parameter sets whose recorded bound contradicts the documented formula are rejected.",
  ["inputs", "histories"], "Every set of benchmarks, number of independent parameter sets per benchmark, order of the parameter file, and wrong bounds.",
  "This script has no tests.",
  [S + "clean_eager_lazy_data.py"], [("join and combination", S + "clean_eager_lazy_data.py")],
  ["benchmarks, best_solver and features CSV"],
  "property-based testing against a reference join", PT + " The recomputed bound may differ by one near powers of two, where the script's floating point is inexact.")
p("P05", "Arithmetic predictions use the features of the problem they are about",
  "Predicting for an integer-arithmetic problem sends the prediction service exactly one feature vector, in the trained order, combined from all independent variable groups the estimator reports for that problem, and reports the class with the highest returned score. The benchmark sweep writes the same features, one row per benchmark in list order.",
  ["inputs", "programs"], "Every linear problem (several independent groups, either logic) and every answer of the service.",
  "These scripts have no tests.",
  [S + "generate_predictions.py", S + "run_eager_v_lazy.py"], [("feature vector and call", S + "generate_predictions.py"), ("sweep", S + "run_eager_v_lazy.py")],
  ["payload sent, stdout, features.csv"],
  "property-based testing with the real estimator and a recording stand-in service against a reference vector", PT)
p("P06", "String predictions use the documented features and normalisation",
  "Predicting for a string problem combines the function counts of the problem with the bucketed line lengths of the solver's partial output in the documented order, normalised by the given means and deviations when asked, and reports what the service answered.",
  ["inputs", "programs", "configurations"], "Every problem, solver output, set of buckets, normalisation, and verbosity.",
  "This script has no tests.",
  [S + "generate_predictions.py"], [("feature vector, normalisation and call", S + "generate_predictions.py")],
  ["payload sent, stdout"],
  "property-based testing with stand-in solver and service against a reference vector", PT)
p("P07", "Cleaning competition results keeps exactly the qualifying rows",
  "Cleaning the competition results keeps, in order, exactly the rows of the chosen solver and benchmark families that are on no exclusion list, split into the documented runtime ranges, with names and times lining up and the slow range's times reduced by the already observed five minutes.",
  ["inputs"], "Every results table, including boundary times, timeouts, excluded names and mixed logics and solvers.",
  "This script has no tests.",
  [S + "clean_smt_comp_results.py"], [("filters", S + "clean_smt_comp_results.py")],
  ["benchmarks and times CSV"],
  "property-based testing against a reference filter", PT)
p("P08", "Batch modernizing converts every listed benchmark under its own name",
  "Batch modernizing writes for every listed benchmark one modernized file under the listed name, with the same content as modernizing it alone; no listed benchmark is lost or overwritten and no original changes.",
  ["inputs", "histories"], "Every list of benchmark paths and names, including dots in names.",
  "This script has no tests.",
  [S + "modernize_benchmarks.py", U + "main.rs"], [("loop over the list", S + "modernize_benchmarks.py")],
  ["benchmark directory contents"],
  "property-based testing end to end over generated benchmark trees", PT)

p("P09", "Benchmarks are sorted by whether finite model finding is faster",
  "Comparing run times with and without the finite model finding option lists every benchmark, in order, among the faster ones exactly when it took less time with the option, and otherwise among the slower ones, in the form in which the other scripts take benchmark lists. A run that reaches the time limit counts as that long and is ended. Both times are recorded.",
  ["inputs", "schedules"], "Every list of benchmarks and all run times, limits included.",
  "This script has no tests.",
  [S + "find_faster_fmf.py"], [("timing and sorting", S + "find_faster_fmf.py")],
  ["faster_fmf.csv, slower_fmf.csv, runtimes_fmf_exp.csv, processes left running"],
  "property-based testing with a stand-in solver and a simulated clock", PT + " Times are multiples of 50 s of a simulated clock.")

p("P10", "The sweep names the solver that answers first",
  "Running all solvers on a list of benchmarks records, one row per benchmark in list order, which of Z3, CVC4 and the arithmetic solver took the least time, or None when none of them answers within the five minutes, and the encoding statistics of the benchmark whether or not the arithmetic solver was still running when its time was up. Solvers that reach their limit are ended and the sweep goes on with the others.",
  ["inputs", "schedules"], "Every list of benchmarks and all run times, limits included.",
  "This script has no tests, and what it records depends on the order in which three programs finish or fail to.",
  [S + "run_eager_v_lazy.py"], [("races and limits", S + "run_eager_v_lazy.py"), ("statistics", S + "generate_predictions.py: parse_eager_encoding_output")],
  ["fastest_solver.csv, features.csv, processes left running"],
  "property-based testing with stand-in solvers and a simulated clock", PT + " Times are multiples of 25 s of a simulated clock.")

TT = "Trusts the SMT-LIB string and regular-expression evaluator in vh/strings.py (cross-checked against z3)."

p("T01", "Char-to-char conversion keeps every assertion's truth value",
  "Converting a script char-to-char yields a script of the same shape in which every assertion has, under the assignment whose strings went through the recorded character mapping, the truth value the original has under the original assignment, whatever the assignment. Character ranges, digits, string escapes, uninterpreted functions, conditionals and binders are included; scripts that compare character codes are not.",
  ["inputs", "programs", "configurations"], "Every script over the supported string functions and every assignment to its constants.",
  "The tests convert a handful of fixed files and compare whole outputs or literals; whether a one-to-one renaming of characters commutes with every function, range and digit a script uses depends on the particular literals and their combination.",
  [T + "transpiler.rs", T + "string_mappings.rs", T + "transpiler_visitors.rs", T + "lib.rs"],
  [("character mapping", T + "string_mappings.rs: map_string_char_to_char, update_and_get_next_char"),
   ("ranges and digits kept", T + "transpiler.rs: initialize_charmap, initialize_charmap_with_keep_ints, initialize_charmap_with_ranges"),
   ("which literals are replaced", T + "transpiler_visitors.rs: process_string_fct, fold_const")],
  ["amzn-smt-string-transformer convert --mapping char-to-char: transformed script, mapping file"],
  "property-based testing: random scripts and assignments, metamorphic relation decided by an independent evaluator", TT)

p("T02", "The mapping file says exactly what the conversion did",
  "The mapping file a conversion leaves describes it exactly: the character map (when there is one) and the string map are one-to-one, agree with each other and with every literal of the transformed script, only the empty string maps to the empty string, the renaming is the one the transformed script shows, every affected variable is a constant of that script and none is listed as failed.",
  ["inputs", "programs", "configurations"], "Every convertible script, in both mapping modes.",
  "The tests look at single mappings; disagreements between the maps and the script appear only for particular combinations of literals, escapes and ranges.",
  [T + "mapping_tools.rs", T + "transpiler.rs", T + "main.rs", T + "string_mappings.rs"],
  [("mapping file", T + "mapping_tools.rs: MappingData::new"), ("string map", T + "transpiler.rs: construct_mapping, compute_replacement_strings")],
  ["amzn-smt-string-transformer convert: *_mapping.json, *_transformed.*"],
  "property-based testing: consistency of two outputs aligned with the original script", TT)

p("T03", "No-reconstruct conversion keeps the relations between literals",
  "Converting with the no-reconstruct mapping keeps every relation the script tests between strings: where atoms apply a supported string function to variables and literals, every assertion has the same truth value when its variables take literals they are compared with as its conversion has when they take what those literals became. Different literals stay different and the empty one stays empty.",
  ["inputs", "programs"], "Every script whose atoms each apply one string function (or one string function inside a comparison) to declared variables and literals, and every assignment of literals occurring beside a variable to that variable.",
  "Literals are compressed subject to properties computed from the script's call graph; a property that is missed or not propagated only matters for particular sets of literals (prefixes, overlaps, lengths, digits, ranges), of which the tests fix a few.",
  [T + "string_fcts.rs", T + "callgraph.rs", T + "transpiler.rs", T + "string_mappings.rs"],
  [("properties each function requires", T + "string_fcts.rs: get_required_props, get_var_position_implies_char_substrings"),
   ("propagation between variables", T + "callgraph.rs: propagate_all"),
   ("choice of the mapped strings", T + "string_mappings.rs: map_string_no_reconstruct, gen_string_keep_substrings, gen_string_keep_ranges"),
   ("relations between literals", T + "transpiler.rs: setup_string_lit_oriented_props, add_keep_substring_prefix_suffixes")],
  ["amzn-smt-string-transformer convert --mapping no-reconstruct: transformed script"],
  "property-based testing: random literal families and atoms, homomorphism checked by exhaustive assignment of the literals with an independent evaluator", TT)

p("T04", "A converted script has the same satisfiability as the original",
  "A script and its no-reconstruct conversion have the same satisfiability: converting never makes a satisfiable script unsatisfiable or the other way round.",
  ["inputs", "programs"], "Every script whose atoms each apply one string function (or one inside a comparison) to declared variables and literals.",
  "The tests never run a solver on a conversion.",
  [T + "transpiler.rs", T + "string_mappings.rs", T + "string_fcts.rs", T + "callgraph.rs"],
  [("conversion", T + "transpiler.rs: transform_ast"), ("lengths and ranges kept", T + "string_fcts.rs: get_required_props")],
  ["amzn-smt-string-transformer convert --mapping no-reconstruct: transformed script"],
  "property-based testing: differential satisfiability of random scripts and their conversions", TT + " Satisfiable verdicts come from z3 with a model our evaluator confirms, unsatisfiable ones from z3 with no objection from cvc5; scripts without a definite verdict are not counted.")

p("T05", "Reconstruction turns a model of the conversion into one of the original",
  "Given the solver's model of a char-to-char converted script, reconstruction writes the original script with exactly one equality for each affected string constant declared at that point added before each satisfiability check (with or without assumptions), all other commands unchanged, and the values satisfy the original. Any other answer of the solver is reported as what it is and never leads to a reconstructed script.",
  ["inputs", "programs", "histories"], "Every convertible script, every model of its conversion a solver may return (also values with characters the script does not mention), and every other answer.",
  "The tests reconstruct two fixed cases with characters that all occur in the mapping.",
  [T + "reconstruct_tools.rs", T + "mapping_tools.rs", T + "main.rs", T + "lib.rs"],
  [("reversal of the mapping", T + "mapping_tools.rs: get_re_map; " + T + "reconstruct_tools.rs: reconstruct_string"),
   ("assertions added", T + "reconstruct_tools.rs: add_asserts_to_original_problem, build_string_var_assertions"),
   ("solver answers", T + "reconstruct_tools.rs: reconstruct_and_add_assertions; " + T + "main.rs: reconstruct")],
  ["amzn-smt-string-transformer reconstruct: stdout, *_recon_check file"],
  "property-based testing: random scripts with random models of the conversion, original evaluated under the reconstructed values", TT)

p("T06", "A conversion changes nothing but string literals and declared names",
  "A transformed script has the original's commands, terms and sorts, in the original order except that header commands and sort declarations come first and declarations second; only string literals are replaced, one-to-one, and declared constants and functions renamed a0, a1, ... in the order of their declarations (leaving out names that the script itself binds or defines, as do the names of variables the tool introduces), at every use outside their binders' scopes. Only assertions of the form (= t t) may be left out. The conversion writes exactly the transformed script and the mapping file beside its input and leaves the input alone.",
  ["inputs", "programs", "configurations"], "Every script over all SMT-LIB command kinds that stay in place, in both modes, with and without the global map.",
  "The tests compare a few fixed outputs; commands of other kinds, user sorts, functions, bound variables with declared names and late declarations do not occur in them.",
  [T + "subformula_parser.rs", T + "transpiler.rs", T + "transpiler_visitors.rs", T + "main.rs"],
  [("order of commands", T + "subformula_parser.rs: reconstruct_orig_query_shape"),
   ("renaming", T + "transpiler_visitors.rs: fold_declare_const, fold_declare_fun, fold_var, fold_uninterpreted_func"),
   ("output files", T + "main.rs: convert")],
  ["amzn-smt-string-transformer convert: files"],
  "property-based testing: structural alignment of random scripts with their conversions", TT)

p("T07", "Scripts are refused exactly when an unsupported function meets a literal",
  "A script that applies a function the transformer does not support (str.<, str.<=, character ranges that are not literal characters) to a string literal, or to a variable related to one, is refused: the output is the documented message and the mapping file lists failed variables. A script using only supported functions is never refused, and failed variables are listed exactly when the script is refused.",
  ["inputs", "programs", "configurations"], "Every script with unsupported applications at any place and depth, in both modes, and every script without.",
  "The tests contain two refusals, both direct; refusing too little silently gives a wrong conversion.",
  [T + "transpiler_visitors.rs", T + "callgraph.rs", T + "transpiler.rs", T + "string_fcts.rs", T + "main.rs"],
  [("what is affected", T + "transpiler.rs: string_consts_affected; " + T + "callgraph.rs: propagate_all"),
   ("giving up", T + "transpiler.rs: transform_ast; " + T + "main.rs: convert")],
  ["amzn-smt-string-transformer convert: transformed file, mapping file"],
  "property-based testing: random scripts with planted unsupported applications", TT)

p("T08", "A damaged script is rejected without writing any output",
  "A script that is cut off inside a command, a string or a quoted symbol, or has unbalanced parentheses, is rejected with a failure exit status by conversion and subformula listing, and no transformed script, mapping or list is written, overwritten or removed. An intact script is always processed. The input never changes.",
  ["inputs", "crash_points"], "Every truncation point and every dropped or added parenthesis or quote of every script.",
  "The tests only read intact files.",
  [T + "main.rs", T + "transpiler.rs"],
  [("parsing before output", T + "main.rs: convert, find_subformulae"), ("parser", T + "transpiler.rs: parse")],
  ["amzn-smt-string-transformer: exit status, files"],
  "property-based fault injection: truncated and damaged scripts", "Decides damage with its own small scanner; an unterminated quote between two commands is taken for the end of the script by the external parser and is left out.")

p("T09", "Conversions through the global map are as good as fresh ones",
  "When several scripts are converted one after the other with the global map, each conversion still keeps every relation its own script tests between strings: reused mappings are used only where they fit, different literals stay different, and what earlier scripts left in the map never changes the meaning of a later one.",
  ["histories", "inputs"], "Every sequence of conversions of scripts with overlapping literals and different functions, repetitions included.",
  "No test converts two scripts through the global map.",
  [T + "transpiler.rs", T + "mapping_tools.rs", T + "main.rs", T + "string_mappings.rs"],
  [("reuse of persistent mappings", T + "transpiler.rs: construct_mapping, prune_persist_string_map"),
   ("storing and loading", T + "mapping_tools.rs: build_from_json_file, to_string_set_props"), ("global map file", T + "main.rs: convert")],
  ["amzn-smt-string-transformer convert --use-global-map: transformed scripts, global_mapping.json"],
  "stateful property-based testing: random conversion histories, each step checked as a homomorphism", TT)

p("T10", "The subformula list has every subterm with variables normalized",
  "The subformula list contains one entry for every function application of the script's terms, repetitions included, arguments before the application they are in and in the order of the script; each entry is that term with its variables named v0, v1, ... in order of appearance and nothing else changed.",
  ["inputs", "programs"], "Every script; entries that contain a binder are only required at their place in the list.",
  "The tests list the subformulas of a few short formulas.",
  [T + "subformula_parser.rs", T + "main.rs"],
  [("collection", T + "subformula_parser.rs: find_string_subforumlas, fold_assert, fold_term"),
   ("normalization", T + "subformula_parser.rs: fold_var"), ("file", T + "main.rs: find_subformulae")],
  ["amzn-smt-string-transformer sub-formula: *_recon.json"],
  "property-based testing against a reference enumeration", "The reference enumeration is our own reading of the README.")

p("T11", "The duplicate count reports each transformed file's equals exactly",
  "The pairwise comparison script reports for every transformed file of a directory exactly once the files with identical contents, itself included, and their number.",
  ["inputs"], "Every set of transformed files, with other files beside them.",
  "The script has no tests.",
  ["amzn-smt-string-transformer/pairwise_diff_count.sh"], [("counting", "amzn-smt-string-transformer/pairwise_diff_count.sh")],
  ["stdout"],
  "property-based testing against a reference count", "File names without spaces or shell metacharacters.")

p("T12", "The experiment scripts time and record solver, conversion and solver again",
  "For each query given, alone or in a list, the experiment scripts run the solver with its options on the original query, ask the transformer to convert it with or without the global map as the arguments say, run the solver on the converted query, and leave both answers in the query's .out files and the three commands with their times in its times file.",
  ["inputs", "histories"], "Every query, file name, directory, solver option and setting of the global map; repeated runs; the program built or not.",
  "The scripts have no tests.",
  ["amzn-smt-string-transformer/test_and_transform.sh", "amzn-smt-string-transformer/parallel_test_transform_list.sh"],
  [("stages", "amzn-smt-string-transformer/test_and_transform.sh"), ("list", "amzn-smt-string-transformer/parallel_test_transform_list.sh")],
  ["<query>.out, <query>_transformed.out, <query>_times.out, calls of the solver"],
  "property-based testing with a stand-in solver that records its calls, against a reference for every file",
  "Between the scripts and the transformer stands an adapter that takes the command line they use, which the transformer no longer has (a known finding). Paths without dots but that of the extension (another). GNU parallel is a stand-in that runs the jobs of the list one after another. File names without spaces.")

p("T13", "The experiment table shows what each query's result files hold",
  "The data processing script's table has one row for each query of an experiment directory or list, with the answers, user times, file sizes and literal count its result files hold, an unfinished stage counted as a timeout, and its summary counts and averages are those of the rows.",
  ["inputs", "crash_points"], "Every directory of results, including those of runs that were ended at any stage.",
  "The script has no tests.",
  ["amzn-smt-string-transformer/data_processing.py"],
  [("queries", "amzn-smt-string-transformer/data_processing.py: main part"), ("result files", "amzn-smt-string-transformer/data_processing.py: get_SAT_results, get_timings, get_filesizes, get_map_info"),
   ("summary", "amzn-smt-string-transformer/data_processing.py: get_summary_table")],
  ["the table rel_results and get_summary_table(rel_results)"],
  "property-based testing against a reference table", "pandas, numpy and matplotlib are not installed: small stand-ins (tools/standins) take their place. At least one query was run to the end.")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for q in PROPS:
            assert len(q["title"]) <= 80, q["title"]
            f.write(json.dumps({
                "id": q["id"], "title": q["title"], "statement": q["statement"],
                "quantifier": {"over": q["over"], "text": q["text"]},
                "why_tests_cant": q["why"],
                "anchors": {"files": q["files"], "mechanism": [{"name": a, "where": b} for a, b in q["mechanism"]],
                            "observe_at": q["observe"], "hook_needed": None}}) + "\n")
    na = {n["property"] for n in NOT_APPLICABLE}
    man = {"version": 1, "setup_cmd": "./setup.sh",
           "checks": [{"property": q["id"], "quick_cmd": "./check %s --tier quick" % q["id"],
                       "thorough_cmd": "./check %s --tier thorough" % q["id"],
                       "technique": q["technique"], "level": "exploration", "level_note": q["note"]}
                      for q in PROPS if q["id"] not in na],
           "not_applicable": NOT_APPLICABLE,
           "notes": "Seeds come from VERIF_SEED. No hooks in /repo: every check drives the repository's own programs and scripts."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
