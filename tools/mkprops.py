#!/usr/bin/env python3
# Source of /verif/properties.jsonl (run by hand when a property changes).
import json
SR="symbolic_regression/src/"; DE="dynamic_expressions/src/"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":mech,"where":", ".join(files)}]}
    if state:a["state"]=[{"name":n,"meaning":"state the property is about","where":files[0]} for n in state.split(", ")]
    if observe:a["observe_at"]=[observe]
    a["hook_needed"]="cfg(sr_verif): event sink or re-export of internals" if hook else None
    P.append(dict(id=id,title=title,statement=statement,quantifier={"over":over,"text":text},why_tests_cant=why,anchors=a))

p("C01","The hall of fame never loses the best candidate of any complexity",
 "For each complexity, the hall of fame holds a candidate whose cost is the minimum over all constraint-satisfying candidates of that complexity that any finished cycle (its best-seen record or its resulting population) or the initial populations offered. An entry is only ever replaced by one of strictly lower cost, a slot once filled is never emptied, and the best-seen record of a cycle covers the population before the first and after every evolution round.",
 ["schedules","inputs","configurations"],"every dataset, seed, option set, number of worker threads and completion order of cycles",
 "Tests run a handful of searches and look at the end result; a lost or overwritten entry only shows for particular orders of arrival and particular ties.",
 [SR+"hall_of_fame.rs",SR+"search_utils.rs",SR+"single_iteration.rs"],"HallOfFame::consider folded over best_seen and members in apply_task_result; update_from_members after every reg_evol_cycle in s_r_cycle",
 "after each applied cycle and in the returned result","best_by_complexity",True)
p("C02","Only feasible equations, filed under their true complexity, are reported",
 "Every equation in the hall of fame, on the Pareto front and (as soon as any constraint-satisfying candidate has been seen) the overall best satisfies the user's limits on size, depth, operator arguments and operator nesting. It is filed under, and reports, exactly the complexity the user's complexity rules give it, and that complexity never exceeds the size limit in force for the cycle that produced it.",
 ["schedules","inputs","configurations"],"all constraint sets, complexity rules, warm-up settings, seeds and completion orders",
 "The violating equation has to be evolved by a particular seed under a particular constraint set; tests assert on a few hand-built trees.",
 [SR+"hall_of_fame.rs",SR+"check_constraints.rs",SR+"complexity.rs",SR+"search_utils.rs"],"consider() re-checks constraints with the cycle's size limit; best is guarded by check_constraints",
 "hall of fame, Pareto front and best after each cycle","best_by_complexity, best",True)
p("C03","The Pareto front is exactly the set of non-dominated hall-of-fame entries",
 "The Pareto front lists, in strictly increasing complexity, exactly those hall-of-fame entries with finite loss whose loss is strictly lower than the loss of every simpler entry. No non-dominated entry is missing and none is listed twice or altered.",
 ["histories","inputs"],"every content of the hall of fame, including ties, infinite losses and empty slots",
 "Ties, infinities and gaps combine in ways sampled runs rarely hit.",
 [SR+"hall_of_fame.rs"],"HallOfFame::pareto_front running-minimum scan","HallOfFame::pareto_front","best_by_complexity",False)
p("C04","Reported loss and cost are those of the equation on the full dataset",
 "Whenever a cycle has finished, the loss of every hall-of-fame entry, of the best and of every population member equals the configured loss of that equation evaluated on the full weighted training data (infinite if evaluation fails), also with mini-batching on. Its cost equals that loss normalised by the baseline (the loss of predicting zero, when enabled and usable) plus parsimony times complexity.",
 ["inputs","configurations","histories"],"all datasets, weights, losses, batching settings, mutation histories and seeds",
 "A stale or batch-measured loss is a plausible number; no sampled assertion compares every reported number to a re-evaluation after long mutation histories.",
 [SR+"pop_member.rs",SR+"loss_functions.rs",SR+"single_iteration.rs",SR+"mutate.rs"],"PopMember::evaluate, loss_to_cost, the full-dataset re-evaluation that closes each cycle","members, hall and best after each cycle","loss, cost, complexity",True)
p("C05","The overall best never gets worse and is the best reported",
 "The loss of the overall best never increases during a search (except when it was an infeasible initial fallback) and, after every cycle, is no greater than the loss of any hall-of-fame entry or of any constraint-satisfying candidate offered so far. The result returned at the end is the state after the last cycle.",
 ["schedules","histories"],"every seed, option set and completion order",
 "Needs an invariant over the whole history of offers, not an end-state assertion.",
 [SR+"search_utils.rs"],"best updated in apply_task_result; init_populations fallback","best() after each step, SearchResult","best",True)
p("C06","Each population advances exactly the planned cycles, one task at a time",
 "A search with n iterations and p populations runs exactly n*p cycles, n on each population. A population is never evolved by two tasks at once, a task always starts from the population's state after its previous cycle, every finished task is applied exactly once and to its own population, and the reported counts of completed cycles and evaluations are the sums over applied tasks.",
 ["schedules","configurations"],"every number of workers, populations and iterations, and every order in which concurrent cycles finish",
 "Completion orders are decided by the OS scheduler; tests see one or two of them.",
 [SR+"search_utils.rs"],"pools.pops[i].take() on dispatch, mpsc results, apply_task_result, SearchCounters","dispatch, task start/end and apply transitions","pops, counters, total_evals",True)
p("C07","A search always terminates, and a failing cycle surfaces to the caller",
 "A search started on any thread pool with at least one usable worker thread, including several searches started concurrently from inside one pool, always returns. If evolving a population panics, the panic reaches the caller of the search instead of being swallowed or leaving the caller waiting for ever.",
 ["schedules","fault_sequences"],"every pool size, nesting of searches in a pool, completion order and choice of failing cycle",
 "Deadlocks and lost wake-ups need specific pool sizes, nesting or fault timing.",
 [SR+"search_utils.rs"],"rayon scope, result channel, catch_unwind/resume_unwind, recv_result","return or unwinding of equation_search","in-flight tasks, channel",True)
p("C08","Same seed, same result; how a search is stepped does not matter",
 "Two runs with equal data, options and seed that complete cycles in the same order produce identical sequences of populations, halls of fame and bests. Stepping an engine in any chunk sizes is equivalent to running it to completion, stepping reports the number of cycles it really ran, and a search on a single worker equals the stepped engine.",
 ["schedules","histories","configurations"],"all option sets, seeds, chunkings and completion orders",
 "Hidden state shared between runs, or consumed depending on call granularity, shows only when traces of two runs are compared step by step.",
 [SR+"search_utils.rs",SR+"single_iteration.rs",SR+"random.rs"],"per-population RNG streams, order_rng, SearchEngine::step/prepare_iteration","whole traces of runs",None,True)
p("C09","The size limit warms up monotonically and always stays within the maximum",
 "While warming up, the size limit of a cycle is 3 plus the elapsed fraction of the warm-up period times (maximum size - 3), rounded down; afterwards, or without warm-up, it is the maximum size. It never decreases during a search and never exceeds the maximum size.",
 ["configurations","schedules"],"all maximum sizes, warm-up fractions and numbers of cycles",
 "Boundary fractions and tiny maximum sizes are not in the tests.",
 [SR+"warmup.rs",SR+"search_utils.rs"],"get_cur_maxsize on dispatched-cycle counts","the limit attached to each dispatched cycle","cycles_started",True)
p("C10","Evolution keeps population size and always replaces the oldest members",
 "Each evolution round performs ceil(population size / tournament size) events; an event either leaves the population unchanged or replaces exactly the oldest member (mutation) or the two oldest members (crossover), the population size never changes, and all other members stay untouched. Every accepted newcomer gets a birth stamp newer than every existing one, an identifier never used before, and the identifier of the member it descends from as parent.",
 ["histories","configurations"],"all populations, birth orders, seeds, option sets and mutation outcomes",
 "Ageing bugs show only for particular birth permutations and outcome sequences.",
 [SR+"regularized_evolution.rs",SR+"population.rs",SR+"mutate.rs"],"replace_oldest / replace_two_oldest, next_id / next_birth counters, skip_mutation_failures","populations before and after one evolution event","members, birth, id",True)
p("C11","Migration copies only the announced migrants, with fresh identities",
 "After a cycle, migration may only overwrite members of that cycle's population with copies of the best members published by other populations (if inter-population migration is on) or of Pareto-front entries (if hall-of-fame migration is on). Copies carry the original's equation, loss, cost and complexity, a new identifier, a new birth and the original's identifier as parent; nothing else changes, and with both kinds off (or zero fractions) nothing changes at all. How many copies are made is Poisson-distributed around fraction times population size, cut at the population size and at the number of migrants; slots and migrants are chosen uniformly. Each population publishes its lowest-cost members, as many as requested.",
 ["schedules","configurations","histories"],"every option set, seed and completion order",
 "Needs the relation between pre- and post-migration populations and the published pools in every interleaving.",
 [SR+"migration.rs",SR+"search_utils.rs"],"best_sub_pop, migrate_into, candidate pool excluding the own population","population before and after migration in apply","best_sub_pops, members",True)
p("C12","Mutation and crossover yield well-formed, feasible variants of their parents",
 "Every offspring is a well-formed expression over the selected operators and existing features, with each constant slot used, that satisfies all limits in force. Each kind of variation changes only what its name says: constants, one operator (same arity), one feature, operand order at one operator, a rotation, one inserted or deleted operator, swapped subtrees between two parents, or a fresh random expression within the size limit; unsuccessful attempts leave the parent's equation, loss and cost in place.",
 ["inputs","histories","configurations"],"all parent expressions, operator sets, limits and random choices",
 "The relation must hold for all trees and random choices; tests check a few trees.",
 [SR+"mutation_functions.rs",SR+"mutate.rs"],"in-place postfix edits followed by compress_constants and check_constraints","result of one mutation or crossover event","expr",True)
p("C13","The constraint check accepts exactly the expressions within the declared limits",
 "An expression is accepted if and only if its complexity is at most the current size limit, its depth is at most the depth limit, every limited operator argument has at most the allowed complexity, and below every operator with a nesting rule the restricted operator occurs at most the allowed number of times along any downward path. Complexity is the node count by default, else the sum of the user's per-operator, per-variable and per-constant weights.",
 ["inputs","configurations"],"all well-formed expressions, operator sets and combinations of limits and weights",
 "The space of trees times limits is combinatorial; tests check a few.",
 [SR+"check_constraints.rs",SR+"complexity.rs",DE+"node_utils.rs"],"check_constraints, compute_complexity, count_depth, nestedness","check_constraints and compute_complexity",None,True)
p("C14","Evaluating a compiled equation gives the value of its expression tree",
 "For every well-formed expression, dataset and row, evaluation returns the value obtained by applying each operator to the values of its arguments in order, whatever evaluation path (fresh, precompiled plan, reused context or scratch, batched data) is used. Reusing an evaluation context for other expressions, other constants or other data never changes a result.",
 ["programs","inputs","histories"],"all expressions up to the bound, all operator arities, layouts and sequences of reuse",
 "Register allocation and cache reuse fail for specific shapes and call sequences only.",
 [DE+"compile.rs",DE+"evaluate.rs",DE+"operator_enum.rs",DE+"dispatch.rs"],"compile_plan slot allocation, eval_plan_array_into, EvalTreeContext cache","evaluation entry points","plan slots, scratch, cached plan",False)
p("C15","Derivatives with respect to variables and constants are exact",
 "Forward-mode and gradient evaluation return the same values as plain evaluation, together with the mathematical derivative of the expression with respect to the requested variable, or to every variable or every constant, row by row and in the documented layout. This holds for every built-in operator and composition and does not depend on earlier use of the same context.",
 ["programs","inputs","histories"],"all expressions up to the bound, every variable and constant, sequences of reuse",
 "The chain rule over slots and directions breaks only for particular shapes.",
 [DE+"evaluate_derivative.rs",DE+"operator_enum.rs",DE+"dispatch.rs"],"eval_diff_tree_array, eval_grad_tree_array, DiffContext, GradContext","derivative entry points","scratch, cached plan",False)
p("C16","Simplification preserves value and never makes an expression more complex",
 "Simplifying an expression yields a well-formed expression with the same value (in exact arithmetic) on every input and never more nodes, for every operator set. It reports a change whenever the expression changed, leaves no unused constant slots, and never turns a finite expression into a non-finite one by folding.",
 ["programs","inputs"],"all expressions up to the bound over builtin and custom operator sets",
 "Rewrites fire on rare shapes and operator-id coincidences.",
 [DE+"simplify.rs",DE+"utils.rs"],"constant folding, add/mul/sub combination, compress_constants","simplify_in_place",None,False)
p("C17","The evaluation-completed flag is honest",
 "With finiteness checking on, evaluation reports completion if and only if every value an operator computes on any row and every returned value (also a constant or input returned directly) is finite, and then the returned values are correct; stopping early only affects failed evaluations. Derivative evaluation may additionally fail on non-finite derivatives. With checking off it always reports completion and propagates non-finite values exactly as the operators do.",
 ["inputs","programs"],"all expressions up to the bound, with non-finite values arising at any node, row or input",
 "Non-finite values must arise at a specific node, row and option combination.",
 [DE+"evaluate.rs",DE+"dispatch.rs",DE+"evaluate_derivative.rs"],"check_finite / early_exit handling in kernels, constants and final copy","boolean returned by the evaluation entry points",None,False)
p("C18","The printed equation denotes the expression it was printed from",
 "Parsing the printed text of any expression, with default or custom variable names, gives back the same tree: operators, argument order, features and constants up to the printed precision. Two different expressions never print identically (other than in constants equal up to that precision).",
 ["programs","configurations"],"all expressions up to the bound and all naming options",
 "Missing parentheses or swapped arguments show only for specific nestings.",
 [DE+"strings.rs"],"string_tree / Display parenthesisation","printed equation",None,False)
p("C19","Constant optimisation never makes a member worse",
 "Optimising a member's constants changes nothing but its constants, loss, cost and birth; the loss afterwards is never greater than before, an improvement is reported exactly when the loss became strictly smaller, and otherwise the member keeps its constants, loss, cost and birth bit for bit. The result is truthful: its loss and cost are those of the new constants.",
 ["inputs","configurations"],"all members, datasets, losses, restart counts, iteration and evaluation limits and random restarts",
 "Line searches that wander, fail or hit a limit leave modified constants behind only on particular landscapes.",
 [SR+"constant_optimization.rs",SR+"optim.rs"],"baseline comparison and restore in optimize_constants, BFGS / Newton with backtracking","optimize_constants and the optimise phase of a cycle","consts, loss, cost, birth",True)
p("C20","Size statistics count every finished population within a bounded window",
 "The frequency table gains exactly one count per member and cycle at the member's complexity, and nothing else changes except by windowing. Every update is followed by windowing, in a search to 100,000 counts, which brings the total down to the window size whenever possible without taking any entry below one, never increases an entry and preserves their order; the normalised table handed to a cycle is the table divided by its sum.",
 ["histories","configurations"],"all sequences of population updates, table sizes and window sizes",
 "The window only engages after 100000 counts; tests do not run that long.",
 [SR+"adaptive_parsimony.rs",SR+"search_utils.rs"],"update_from_population, move_window, normalize, snapshot on dispatch","frequency table after each applied cycle and snapshot per dispatch","frequencies",True)
p("C21","Tournament selection picks by rank among a uniform sample",
 "Selection considers a sample of distinct members of the requested size (the whole population if smaller) and returns, unmodified, the member of the drawn rank by cost adjusted for complexity frequency; with tournament probability one it is a member of minimal adjusted cost in the sample. Every member can be sampled, and members with no adequate rank can never win.",
 ["inputs","configurations"],"all populations, costs (ties, infinities), tournament sizes and probabilities",
 "Rank errors are masked by randomness in sampled tests.",
 [SR+"selection.rs"],"sample_indices, adjusted cost, sample_tournament_place","best_of_sample",None,False)
p("C22","Mini-batches are faithful samples of the dataset",
 "A mini-batch has exactly the requested number of rows, each a copy of one dataset row with its features, target and weight kept together; resampling never mixes rows, touches the full dataset, or keeps stale rows. With batching on, searches run for every batch size, smaller or larger than the dataset.",
 ["inputs","configurations"],"all datasets, weights, batch sizes and random draws",
 "Row mixing yields plausible numbers that no assertion inspects.",
 [SR+"dataset.rs",SR+"search_utils.rs"],"make_batch_buffer, resample_from, run_iteration_phase","batch contents, searches with batching","batch_dataset",True)
p("C23","Tabular input is ingested, split and scored faithfully",
 "Reading a CSV table yields, for every accepted column selection, a dataset whose features, target and weights are the table's cells, and rejects unusable selections with an error. The train/validation split partitions the rows, has the requested validation share, never leaves training empty, keeps rows together and depends only on size, fraction and seed; reported metrics are those of the predictions on the chosen part.",
 ["inputs","configurations"],"all tables, column selections, fractions, seeds and predictions",
 "Column/row permutation errors and tiny tables are not covered by the existing tests.",
 ["web/wasm/src/lib.rs"],"parse_csv_to_rows, build_full_dataset, make_split_indices, split_train_val, compute_metrics","constructor, get_split_indices, evaluate_member",None,True)
p("C24","An identifier denotes one equation for ever",
 "Throughout a search, two different equations (or the same structure with different constants) never carry the same identifier, in any population, in the hall of fame or as best; looking up a reported identifier returns the very equation it was reported with.",
 ["histories","schedules"],"all searches, seeds, options and completion orders",
 "Duplicates appear only after in-place changes of members that are also in the hall of fame.",
 [SR+"single_iteration.rs",SR+"mutate.rs",SR+"migration.rs","web/wasm/src/lib.rs"],"next_id counters per population, fresh ids on every change, find_member_by_id","members, hall of fame, best; point snapshot and lookup","id",True)
p("C25","Searches only use the operators the user selected",
 "Selecting operators by name or symbol yields exactly the requested set per arity, rejects unknown, ambiguous or wrong-arity names, and registers none twice. Every equation a search ever reports uses only selected operators and existing features.",
 ["inputs","configurations"],"all combinations of names, aliases and arities, and all seeds",
 "Sampled searches rarely use every operator-selection combination.",
 [SR+"operators.rs",DE+"operators.rs",SR+"mutation_functions.rs"],"Operators::from_names_by_arity, sample_op","operator tables; expressions in every population",None,True)
p("C26","Combining expressions combines their values",
 "Building an expression from others with arithmetic operators or operator functions gives an expression whose value is that operator applied to the operands' values, for all operand shapes including scalars, with constants and metadata of both operands preserved. Operands are not affected.",
 ["programs","inputs"],"all operand expressions up to the bound and all provided combinators",
 "Constant renumbering breaks only when both operands own several constants.",
 [DE+"expression_algebra.rs",DE+"expression.rs",DE+"operators.rs"],"constant index offsetting when concatenating postfix programs","operator overloads and named operator functions",None,False)
p("C27","The browser worker runs at most one search loop and reports its life cycle",
 "For every interleaving of commands with the running search, at most one loop advances the search, no cycle runs after a pause, a reset or the creation of a new search took effect until the next start, and a completed search reports its final snapshot and front and then done, once per start. After a reset nothing but the reset confirmation and replies to later commands is reported, and an error in the search is reported and stops the run.",
 ["schedules","fault_sequences"],"all sequences of init, start, pause, reset, step and evaluate commands interleaved with loop wake-ups and failures",
 "The worker has no tests, and the races need commands between two turns of the event loop.",
 ["web/ui/src/worker/srWorker.ts","web/ui/src/worker/protocol.ts"],"running flag, loop identity, await points of runLoop, message handler","messages posted by the worker and calls on the search","running, search, loopId",False)
p("C28","Offspring are accepted exactly by the annealing and parsimony rule",
 "A feasible offspring with finite cost is accepted if and only if a uniform draw does not exceed exp(-(cost change)/(temperature*alpha)) (when annealing) times the frequency ratio of old to new complexity (when enabled); offspring failing to evaluate are always rejected. A rejected event yields the parent's equation, loss and cost, an accepted one the offspring's own evaluated loss and cost, and with zero temperature no worse offspring is accepted.",
 ["inputs","histories","configurations"],"all parents, offspring, temperatures, frequency tables and draws",
 "The rule is probabilistic; tests cannot tell a slightly wrong rule from luck.",
 [SR+"mutate.rs",SR+"single_iteration.rs"],"acceptance test in next_generation, temperature schedule in s_r_cycle","result of one mutation event",None,True)
p("C29","Losses and their gradients follow their definitions",
 "Each built-in loss equals its definition averaged over rows (weighted by the row weights when given), is non-negative and zero on perfect predictions, and the derivative reported for each row is the derivative of that value with respect to that row's prediction. Weights act as row multiplicities, and scaling all weights changes nothing.",
 ["inputs","configurations"],"all predictions, targets, weights and loss parameters",
 "Sampled values do not cover kinks, zero weights and parameter combinations.",
 [SR+"loss_functions.rs"],"PointwiseLoss implementations, MeanLoss, Rmse","loss objects",None,True)
p("C30","Options given by the browser reach the search unchanged",
 "For every set of options handed over as data, the search runs with exactly the given value for each option that was given and the core default for each that was not, including the mutation weights and the selected loss with its parameter. Options survive being written out and read back.",
 ["inputs","configurations"],"all option sets (any subset given, any values)",
 "The tests patch two options; a dropped, swapped or re-defaulted one among fifty goes unseen.",
 [SR+"options.rs","web/wasm/src/lib.rs"],"WasmOptionsShim::apply_to, options_from_wasm","WasmSearchOptions",None,True)
p("C31","Each kind of change happens exactly as often as the options say",
 "A step on a population is a crossover with the crossover probability, else a mutation whose kind is drawn in proportion to the weights of the kinds applicable to the parent (perturbing a constant counts at most in full, by an eighth per constant), and a member is re-optimised after a cycle with the optimiser probability. What is switched off or has weight or probability zero never happens. A perturbed constant changes by a factor of at most 1.1 + perturbation factor * temperature up or down, equally likely, and keeps its sign with probability probability_negate_constant (the reading the existing tests fix).",
 ["inputs","histories","configurations"],"all parents, weights, switches, temperatures and search histories",
 "Frequencies need many trials, and a switch that is ignored for one shape of parent shows only there.",
 [SR+"mutate.rs",SR+"regularized_evolution.rs",SR+"single_iteration.rs",SR+"mutation_functions.rs"],"condition_mutation_weights, sample_mutation, reg_evol_cycle, optimize_and_simplify_population, mutate_constant_in_place","offspring and populations under given options",None,True)
p("C33","The evaluation count counts the evaluations that were made",
 "The reported number of evaluations starts at one per initial candidate and grows, when a cycle is applied, by exactly what that cycle counted; it never decreases. With constant optimisation off, and as long as every equation has a value on every row, the growth equals the number of times the loss of an equation was measured: once per scored mutation, twice per crossover, once per best-seen record measured again under mini-batching, once per member when the cycle closes. With constant optimisation on it never exceeds that number, and a cycle always counts at least one evaluation per member.",
 ["histories","configurations","schedules"],"all option sets, seeds, steppings and completion orders",
 "A lost or doubled count is a plausible number; it takes an independent count of the work to tell.",
 [SR+"search_utils.rs",SR+"single_iteration.rs",SR+"regularized_evolution.rs",SR+"mutate.rs"],"init_populations, s_r_cycle, reg_evol_cycle, optimize_and_simplify_population, apply_task_result","SearchEngine::total_evals after each step, next to the calls of the loss","total_evals",True)
p("C34","The first populations are fresh random draws of the planned size and shape",
 "A search starts with the configured number of populations, each of the configured size. Every initial candidate is a well-formed expression within the maximum size, over selected operators and existing features, with three operators (fewer only where no selected operator fits any more). Where size is no obstacle each selected operator is equally likely, leaves are constants half of the time, each feature is equally likely, and constants are standard normal numbers. Populations are drawn independently: no two of one search are alike.",
 ["inputs","configurations"],"all operator sets, maximum sizes, numbers and sizes of populations and seeds",
 "Distributions need many draws, and tiny size limits or operator sets without small arities are not in the tests.",
 [SR+"search_utils.rs",SR+"mutation_functions.rs",SR+"operators.rs"],"init_populations, random_expr_append_ops, random_leaf, sample_arity, sample_op","the populations a new search starts with",None,True)
UI="web/ui/src/"
p("C32","The Run pane shows the current search and nothing else",
 "For every interleaving of clicks, messages and worker turns, the Run pane shows the status the worker last reported, the latest snapshot and front of the search that was initialized last, each row with its own complexity and loss, and for the selected equation the metrics, each under its own name, and predictions computed for exactly that equation, part and search; the fit plot pairs each prediction with its own row. The selection is the row clicked and, as the front changes, the equation of the requested complexity, else the next simpler, else the simplest. Each newly selected equation is evaluated once per existing part, each click sends exactly its command, and leaving the pane or a reset never leaves the page waiting for a search that is gone.",
 ["schedules","histories","fault_sequences"],"all interleavings of clicks, deliveries, evaluations, failures and pane changes",
 "The component tests feed one hand-made state each; stale data shows only when messages cross a click.",
 [UI+"app/panes/SearchSolutions.tsx",UI+"app/panes/searchSolutions",UI+"state/sessionStore.ts",UI+"worker/srWorkerClient.ts",UI+"worker/srWorker.ts"],"message handlers of useSearchController, setFront, setSnapshot, resetRuntime, the cards of the Run pane","what is on the page and the commands sent to the worker after every task","runtime",False)
p("C35","A search is initialized with what the forms show",
 "After every sequence of edits, the forms show the current values, the preview shows the numeric rows of the current text under the current header setting, and a search is initialized with exactly that: the current text, header setting, columns, every option as last edited or else its default, and exactly the ticked operators, each once under its arity. Columns nobody chose are the last for y and all others for X; a column is never used in two roles, changing one role removes it from the others, and columns the parsed data do not have are replaced by usable ones.",
 ["inputs","histories","configurations"],"all sequences of text, file, header, column, option and operator edits",
 "The tests click one control each; stale or conflicting columns need a second table or a second edit.",
 [UI+"app/panes/EnterData.tsx",UI+"app/panes/ModelingTask.tsx",UI+"app/panes/searchSolutions",UI+"state/sessionStore.ts"],"parseCsv, parseCsvText, setOptionsPatch, toggleOp, onInit","forms, preview and the init command sent to the worker","options, csvText, parsed",False)
p("C36","The browser interface reports exactly the search it was asked for",
 "A WasmSearch can be created exactly when the data, columns, loss, operators and options given are readable and consistent; nothing unreadable is silently replaced, what is left out takes its default, and the reported defaults are plain objects that spell out every option. Its answers are those of its own search: step advances by the requested cycles up to the last one and reports the evaluations, best and front of that moment; limits keep the most complex equations; is_finished, split indices, equations and member evaluations agree with the snapshot, whatever was called before, in whatever steps, and whatever other searches live beside it. Looking never changes the search. Impossible requests are refused with an error, never a trap. Every operator in the registry is listed once and usable.",
 ["inputs","histories","configurations"],"all sequences of calls on several instances, all option objects, tables and operator lists",
 "The interface needs a JavaScript host, so no test of the repository calls it at all.",
 ["web/wasm/src/lib.rs",SR+"options.rs",SR+"search_utils.rs"],"WasmSearch, builtin_operator_registry, default_search_options, default_core_options, options_from_wasm","values returned to JavaScript by each call","engine, pareto_k, split, val_dataset",False)
p("C37","Constant optimisation keeps what it finds and reaches what it can",
 "Optimising an equation's constants never gives back progress: the result is at least as good as the equation was and as every set of constants the optimiser moved to, whatever goes wrong on the way (no finite loss, no finite slope, a step that fails, the evaluation limit). It starts once from the current constants and once per configured restart from constants spread around them, and respects the iteration and evaluation limits of each start. On a squared loss of an equation linear in its constants it reaches the least loss; a stationary point that is no minimum is left by a restart.",
 ["inputs","fault points"],"all equations, data, limits and restarts, with a failure at any question asked of the loss",
 "Tests optimise a few smooth functions to the end; failures in the middle need a loss that fails on command.",
 [SR+"constant_optimization.rs",SR+"optim.rs"],"optimize_constants, bfgs_minimize, newton_1d_minimize, backtracking_linesearch","the member after optimize_constants; questions asked of the loss","best_f, best_x",True)
p("C38","The table on the terminal is the search's state",
 "With progress on and a terminal on stderr, after every finished search the screen shows the cycles done and planned, the evaluations made and the complete Pareto front: for every entry its complexity, its loss to four digits and its whole equation, wrapped below its beginning where it is too long, never cut. While the search runs only fronts of cycles already completed are shown, never an older one after a newer one, and the newest one whenever half a second has passed since the last drawing. The plain style is drawn without emphasis, the ansi style with. With progress off nothing is drawn.",
 ["histories","schedules","inputs"],"all searches, equations, losses, variable names, terminal widths of at least 80 and paces of cycles",
 "Tests format one header; what stands on a terminal after a whole search at some pace is never read.",
 [SR+"progress_bars.rs",SR+"search_utils.rs"],"SearchProgress::on_cycle_complete, update_progress_msg, format_hall_of_fame, wrap_equation","bytes written to the terminal, read back from the emulated screen","last_msg_update",True)
p("C39","Structural queries describe the expression tree",
 "The validity test accepts exactly the node sequences that are one well-formed postfix tree. For a tree, depth, subtree sizes and ranges, the numbers of nodes, variables, constants and operators, the largest arity, the leaf and has-a-variable/constant/operator tests and every fold describe exactly that tree, each node visited once with its children from left to right. Queries refuse a malformed sequence and it leaves no trace in later answers. Reading and writing constants addresses exactly the slots named. Compressing constants keeps every node's value and which nodes share one, numbers the slots by first appearance and leaves none unused; it reports a change exactly when there was one.",
 ["inputs","histories"],"all node sequences, constant tables and orders of queries",
 "Malformed sequences, unused or shared constant slots and query after query on one thread never occur in the tests' hand-made trees.",
 [DE+"node_utils.rs",DE+"utils.rs",DE+"expression.rs"],"is_valid_postfix, subtree_sizes, subtree_range, tree_mapreduce, count_*, get/set_scalar_constants, compress_constants","return values of the queries",None,False)
p("C40","Custom operators are what they were declared to be",
 "An operator set made by custom_opset! (either syntax, fields in any order where the syntax allows it) or opset! has exactly the declared operators, numbered per arity in the order of declaration; each has the declared name, display, infix, commutative, associative and complexity, or the documented default. A token selects exactly the operators it names (name ignoring case, display and infix exactly, outer blanks ignored); unknown, ambiguous, repeated, too large and empty selections are refused, others keep their order, and sr_ops! picks the operators it is given. Expressions over the set have the declared values and derivatives, print in the declared notation and keep their values when simplified. A search over selected operators uses only those and counts each with its declared complexity unless the options override it.",
 ["inputs","declarations"],"all declarations, tokens, selections, expressions and searches over custom operators",
 "The tests declare one unary operator with no optional field; declarations are programs, so only generated ones reach the rest.",
 [SR+"operators.rs",DE+"operator_enum.rs",DE+"traits.rs",SR+"search_utils.rs",SR+"options.rs"],"custom_opset!, opset!, sr_ops!, OperatorSet::lookup/lookup_with_arity/meta, Operators::from_names(_by_arity), with_declared_complexities","answers of compiled operator sets; reported members",None,False)
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+"\n")
print(len(P))
