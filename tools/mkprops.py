import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None,
      state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])])))
LM="sawatabi/model/logical_model.py"; PM="sawatabi/model/physical_model.py"; AA="sawatabi/algorithm/abstract_algorithm.py"
CN=["sawatabi/model/constraint/abstract_constraint.py","sawatabi/model/constraint/n_hot_constraint.py","sawatabi/model/constraint/equality_constraint.py","sawatabi/model/constraint/zero_or_one_hot_constraint.py"]
SS="sawatabi/solver/sawatabi_solver.py"; OS="sawatabi/solver/optigan_solver.py"; LS="sawatabi/solver/local_solver.py"; DS="sawatabi/solver/dwave_solver.py"
tab=("interaction table","one row per interaction (target, name, coefficient, scale, attributes, timestamp, dirty and removed flags)","LogicalModel._interactions_array")

p("C01","Physical conversion sums every live interaction exactly once",
"Converting a logical model to a physical model gives, for every variable and every pair of variables, the sum of coefficient times scale over all interactions on it that are not removed, including those generated by the constraints, with placeholders resolved from the given values, each interaction counted exactly once. A key appears in the physical model exactly when its sum is not zero; the physical model has the model type of the logical model and its resolved offset. Each conversion returns a new physical model that shares nothing with earlier ones.",
["inputs","histories"],"every logical model reachable by any sequence of operations, every set of constraints, every placeholder assignment",
"tests convert a few dozen fixed models of at most a handful of interactions; combinations of scale, placeholder, removal, constraint and repeated key are unbounded",
[LM,PM],[("grouping by key over all rows of the table","LogicalModel.to_physical"),("constraint merging before grouping","LogicalModel.to_physical"),("insertion of a coefficient","PhysicalModel.add_interaction")],["return value of LogicalModel.to_physical"],[tab])
p("C02","Converting to a physical model does not change the logical model",
"After a conversion to a physical model, whether it succeeded or raised, the logical model has the same variables, offset, deleted and fixed variables, constraints, and live interactions (target, name, coefficient, scale, attributes, timestamp) as before, so converting again gives the same result. A successful conversion only drops the interactions that were removed, as whole rows, and marks all remaining interactions as not modified; a failed one changes nothing.",
["inputs","histories","fault_sequences"],"every model, every placeholder assignment including missing ones, and every point at which the conversion can fail",
"tests compare a few models before and after one successful conversion; failures at each step and repeated conversions are not sampled",
[LM],[("save and restore around constraint merging","LogicalModel.to_physical"),("dropping of removed rows in every column","LogicalModel.to_physical")],["state of the LogicalModel after to_physical"],[tab])
p("C03","Labels and indices of a physical model are a contiguous bijection",
"In the result of a conversion, the label-to-index and index-to-label maps are inverse to each other, the indices are 0 to the number of indexed variables minus 1 in the order of the variable arrays, and a variable that is not deleted is indexed exactly when some interaction of the physical model uses it.",
["inputs","histories"],"every logical model, with any arrays, deleted variables and interactions",
"tests check the maps for a few fixed models only",
[LM],[("index assignment loop over the variable arrays","LogicalModel.to_physical")],["index maps of the PhysicalModel; solvers' sample keys"])
p("C04","Exported BQM and polynomial represent the same energy function",
"The binary quadratic model contains every linear and quadratic coefficient of the physical model multiplied by the requested sign (minus one by default), the offset of the model unchanged, and SPIN variables for an Ising model and BINARY variables for a QUBO model. The polynomial contains one term per interaction, with the negated coefficient and the indices that the label-to-index map gives for the labels of that interaction, the same index twice for a linear one. Exporting does not change the model.",
["inputs"],"every physical model and every sign",
"tests compare two fixed models each",
[PM],[("sign flip and vartype choice","PhysicalModel.to_bqm"),("label to index translation","PhysicalModel.to_polynomial")],["return values of to_bqm and to_polynomial"])
p("C05","Constraint encodings penalise exactly the violating assignments",
"The QUBO model generated by a constraint is, up to a constant and in sawatabi's sign convention, strength times (sum of its variables minus n) squared for an N-hot constraint, strength times the square of the difference of the two sums for an equality constraint, and strength times sum times (sum minus 1) for a zero-or-one-hot constraint. Every variable contributes one linear term (none for zero-or-one-hot) and every unordered pair of variables one quadratic term, independently of the iteration order of the variable sets. Generating it does not change the constraint.",
["inputs"],"every set of variables, n, strength and label, and every iteration order of the sets",
"tests check fixed constraints with at most a few variables",
CN,[("coefficients of the expanded square","NHotConstraint.to_model, EqualityConstraint.to_model, ZeroOrOneHotConstraint.to_model"),("pair enumeration by label order","to_model of each constraint")],["return value of to_model"])
p("C06","Constraints keep exactly the variables they were given",
"A constraint contains exactly the variables given at construction plus those added minus those removed, in a set of its own that the caller cannot change from outside; an array or a nested array contributes all its elements. Removing a variable that is not in it raises and leaves it unchanged, and so do values of a wrong type, an empty label, a non-positive n, or a strength that is not a number.",
["inputs","histories"],"every sequence of additions and removals, every kind of argument",
"tests do a few fixed additions and removals",
CN,[("conversion to a set with type check","AbstractConstraint._check_variables_and_to_set"),("union and difference","add_variable / remove_variable of each constraint")],["getters of the constraints"])
p("C07","Model type conversion preserves the energy function",
"Converting a logical model between Ising and QUBO substitutes s = 2x - 1 in every interaction that is not removed: coefficients of the linear and quadratic interactions and the offset are rewritten so that every assignment keeps its energy, whatever the scales. The conversion also changes the type of all variables and interactions, leaves removed interactions removed, and does nothing when the model already has the requested type.",
["inputs"],"every model, coefficient and scale",
"tests convert three fixed models with scale 1",
[LM],[("coefficient rewriting","LogicalModel.to_ising, LogicalModel.to_qubo")],["energies before and after conversion"],[tab])
p("C08","Fixing a variable substitutes its value everywhere",
"Fixing a variable to a value allowed by the model type substitutes the value in every interaction that involves it and is not removed: a linear one becomes an offset of minus coefficient times scale times value, a quadratic one becomes a linear one on the other variable with coefficient times scale times value, and for the value 0 they vanish. No other interaction changes, removed interactions stay without effect, and a value that the model type does not allow raises and changes nothing.",
["inputs","histories"],"every model, variable and value",
"tests fix variables of four small models",
[LM],[("substitution loop","LogicalModel.fix_variable")],["energies before and after"],[tab])
p("C09","Deleting a variable removes its whole influence",
"After a variable is deleted, no interaction that involves it, whichever side of a pair it is on, and no constraint contributes anything on that variable to a physical model, and the variable gets no index. All other interactions, variables and constraint variables are unaffected, and deleting works whatever constraints the model has.",
["inputs","histories"],"every model, variable and set of constraints",
"tests delete variables of small models with one constraint",
[LM]+CN,[("removal of related interactions","LogicalModel.delete_variable"),("removal from the constraints","LogicalModel.delete_variable")],["physical models after delete_variable"],[tab])
p("C10","All columns of the interaction table stay aligned",
"After any sequence of additions, updates, removals, merges and conversions, every column of the interaction table, including every attribute column, has one entry per interaction, position i of each column belongs to the same interaction, and an attribute that was never set for an interaction reads as not-a-number. The number of interactions kept by the model equals that length.",
["histories"],"every sequence of public operations and every set of attribute keys",
"an off-by-one in a rarely created column shows only for some orders of operations",
[LM],[("simultaneous append to every column","LogicalModel.add_interaction"),("backfilling of new attribute columns","add_interaction / update_interaction"),("column merge","LogicalModel.merge"),("row dropping","LogicalModel.to_physical")],["select_interaction, get_attributes"],[tab])
p("C11","Interactions have unique names and a canonical pair order",
"Two interactions of a model never have the same name, removed ones included: adding an existing name raises and changes nothing. An interaction on (a, b) is the same as one on (b, a): both get the same key, target order and default name, and a pair of a variable with itself, a tuple of another length or any other kind of target raises.",
["inputs","histories"],"every pair of labels in both orders, every name, every history",
"tests try a few names and pairs",
[LM],[("canonical ordering of the pair","LogicalModel._get_interaction_info_from_target"),("name check","LogicalModel.add_interaction")],["select_interaction; exceptions"],[tab])
p("C12","Adding and updating store exactly the given values",
"Adding an interaction stores the given coefficient, scale, timestamp and attributes for the given target and name, marked as modified and not removed. Updating an interaction changes exactly the fields given (a value of zero counts as given), sets the timestamp (the time of the call when none is given) and marks it as modified, on the named interaction only; an interaction that does not exist is added with the given values when addressed by target and raises when addressed by name, and a removed one raises.",
["inputs","histories"],"every combination of given and omitted fields, every model",
"tests update a few fields with non-zero values",
[LM],[("conditional assignment per field","LogicalModel.update_interaction"),("fallback to adding","LogicalModel.update_interaction"),("row creation","LogicalModel.add_interaction")],["select_interaction, get_attributes"],[tab])
p("C13","Removed interactions never come back",
"Removing an interaction, by target or by name, marks exactly that interaction as removed and modified, and raises when there is no such interaction. From then on it contributes to no conversion, cannot be updated, is not used when fixing a variable or changing the model type, and its name cannot be added again until a conversion has dropped it.",
["histories"],"every history of operations after a removal",
"tests look at the state right after a removal",
[LM],[("removed flag","LogicalModel.remove_interaction"),("filters on the removed flag","to_physical, fix_variable, to_ising, to_qubo, update_interaction")],["physical models; exceptions"],[tab])
p("C14","Merging adds the other model and nothing else",
"After merging another model, the model contains the interactions of both (with all their fields, and not-a-number for attributes only the other has), the sum of both offsets, all deleted and fixed variables and constraints of both, and for a variable array of both the elementwise maximum of the shapes. Interactions whose names clash are renamed apart, everything else keeps its name. No container of the model is shared with the other model (the constraint objects themselves are), so a later change of one model does not change the other.",
["inputs","histories"],"every pair of models",
"tests merge a few pairs of small models",
[LM],[("column concatenation","LogicalModel.merge"),("renaming of duplicates","LogicalModel.merge")],["state of both models after merge"],[tab])
p("C15","A rejected operation leaves the model unchanged",
"When a public operation of a model or a constraint raises because of its arguments (wrong type, unknown or removed interaction, duplicate name, invalid value, incompatible models), the model or constraint is exactly as it was before the call.",
["inputs","fault_sequences"],"every operation, every invalid argument and every state in which it is invalid",
"tests check that the exception is raised, not that nothing changed",
[LM]+CN,[("checks before the first write","every public mutator")],["state after a caught exception"])
p("C16","Equality of models and constraints compares everything observable",
"Two logical models are equal only when their type, variables, interactions, attributes, constraints, deleted and fixed variables and offset are all equal; two physical models only when type, coefficients, offset and index maps are equal; two constraints only when class, variables, parameters, label and strength are equal. Equality never holds with an object of another class, and inequality is always the negation of equality.",
["inputs"],"every pair of objects",
"tests compare a few pairs that differ in one field",
[LM,PM]+CN,[("field comparison","__eq__ / __ne__ of each class")],["== and !="])
p("C17","Solvers reject invalid requests before doing any work",
"Every solver raises on something that is not a physical model, on a model without interactions, on an Ising model for Optigan, and on inconsistent annealing options (number of initial states, pickup mode, missing reverse options) before it converts the model, draws random numbers, contacts a server or starts sampling. Requests that are valid are never rejected by these checks.",
["inputs","configurations"],"every solver, model and option combination",
"tests call each solver with one or two invalid values",
[LS,DS,OS,SS],[("argument checks at entry","solve of each solver, LocalSolver.default_beta_range")],["exceptions and absence of side effects"])
p("C18","Optigan requests and responses are translated faithfully",
"A request carries the number of steps, the timeout and the polynomial of the model unchanged, with the same content whether compressed or not, to the endpoint with the token of the same source (both given explicitly, else both from the configuration file), and the token appears only in the authorization header. A response with a status other than 200 raises and never becomes a result. Each returned sample assigns the k-th returned value to the variable with index k, and each energy is the returned energy plus the offset of the model.",
["inputs","configurations","fault_sequences"],"every model, option combination, configuration source and response",
"tests cover a few mocked requests",
[OS],[("payload and headers","OptiganSolver.solve"),("status check and sampleset construction","OptiganSolver.solve")],["requests sent, sampleset returned"])
p("C19","The built-in annealer reports the true energy of every sample",
"For every run of the built-in annealing solver, the energy returned with a sample is the energy of that sample in sawatabi's sign convention, offset included: each accepted flip changes exactly one spin and adds twice the local field of that spin to the tracked energy, rejected flips change nothing, and the tracked energy starts at the energy of the initial state. Samples are keyed by the labels of the indices and returned in the variable type of the model.",
["inputs","histories","configurations"],"every model, seed, schedule and sequence of accepted and rejected flips",
"tests check energies of a few runs on small models",
[SS],[("local field","SawatabiSolver.calc_energy_diff"),("incremental energy","SawatabiSolver.annealing"),("coefficient tables by index","SawatabiSolver.solve")],["sampleset energies"])
p("C20","The annealing schedule follows the requested parameters",
"Each read runs the requested number of sweeps; each sweep visits every variable exactly once, in random or in sequential order as requested; the temperature starts at the initial temperature and is multiplied by the cooling rate after every sweep, and with reverse options it first rises towards the reverse temperature until the reverse period has passed. A flip that does not raise the energy is always accepted, one that raises it by d with probability exp(-d/temperature), each decision with a fresh random number. All randomness comes from the given seed, so the same call with the same seed gives the same result.",
["inputs","configurations","histories"],"every parameter combination and every random sequence",
"tests run a few parameter sets and compare lengths of histories",
[SS],[("schedule","SawatabiSolver.annealing"),("Metropolis rule","SawatabiSolver.is_acceptable"),("generator created from the seed","SawatabiSolver.solve")],["statistics, samplesets"])
p("C21","Operations do not change the objects passed to them",
"Solving never changes the physical model, the initial states or the option dictionaries given by the caller; importing a PyQUBO expression does not change it; adding or updating an interaction does not change the attributes given; exporting a model does not change it.",
["inputs","histories"],"every call sequence that reuses its arguments",
"tests use each argument once",
[LM,PM,LS,DS,OS,SS],[("copies instead of in-place changes","solve of each solver, from_pyqubo, add_interaction, update_interaction")],["arguments after the call"])
p("C22","Each window is mapped, solved and unmapped in order, or reported",
"For every window that is not outdated the map, solve and unmap functions are called once each in this order, with the model, the previous sampleset, the elements and the incoming and outgoing differences, each given the result of the previous stage, and the result of unmap is the output. An exception of one of them never stops the stream: the output is then a single message naming the stage and the error, and later stages are not called. A window older than one already processed yields only a message and changes no state.",
["inputs","histories","fault_sequences"],"every sequence of windows and every stage that raises",
"tests run a few pipelines with well-behaved functions",
[AA],[("stages with handlers","AbstractAlgorithm.SolveDoFn.process")],["output of the pipelines; calls of the user functions"])
p("C23","Stream state always holds the latest window, model and solution",
"After a window has been processed, the state holds exactly one timestamp and one element list, those of this window, the model returned by the last successful map and the sampleset returned by the last successful solve; a failing stage leaves the later ones as they were. The next window is given exactly these values, and the first window a new empty model of the requested type and no previous solution.",
["histories","fault_sequences"],"every sequence of windows with any pattern of failing stages",
"tests look at outputs of well-behaved pipelines only",
[AA],[("clear before add for each state cell","AbstractAlgorithm.SolveDoFn.process")],["arguments of the user functions over time"],[("four state cells","timestamp, elements, model, sampleset","AbstractAlgorithm.SolveDoFn")])
p("C24","Element lists and differences of windows are exact",
"The elements given to the user functions are sorted by event time; for the incremental algorithm they are those of the window together with all previous ones, for the partial algorithm those of the window together with the previous ones selected by the filter and not already in it, and for the others those of the window. Outgoing is exactly the previous elements that are no longer among the current ones; incoming is all elements in the first window and afterwards exactly the current elements newer than the newest previous one, both in time order.",
["inputs","histories"],"every sequence of windows, overlapping or not",
"tests check differences for a few fixed streams",
[AA],[("difference computation","AbstractAlgorithm.SolveDoFn.process")],["arguments of the user functions"])
p("C25","Attenuation scales interactions linearly with their age",
"With the attenuation algorithm, before solving, the scale of every interaction of the model is the linear interpolation between the minimum scale for the oldest and 1 for the newest value of the configured key, and is left alone when all values are equal. No other algorithm changes the scales, and removed interactions are dropped before the scales are computed.",
["inputs","histories"],"every model, key and minimum scale",
"tests run one pipeline",
[AA],[("scale update","AbstractAlgorithm.SolveDoFn.process")],["scales seen by the solve function"])
p("C26","Each streaming algorithm is wired as documented",
"Each algorithm builds the pipeline input, indexing, optional timestamp assignment by index, windowing, solving, optional timestamp, prefix and suffix, output, with every stage connected to the previous one. Fixed windows are used by the algorithms on non-overlapping windows and sliding windows with the given size and period by the others, the user functions, options, solver and initial model type reach the solving stage unchanged, and an invalid initial model type raises.",
["configurations"],"every algorithm and combination of options and functions",
"tests run a few combinations",
[AA,"sawatabi/algorithm/attenuation.py","sawatabi/algorithm/delta.py","sawatabi/algorithm/incremental.py","sawatabi/algorithm/partial.py","sawatabi/algorithm/window.py"],[("pipeline construction","AbstractAlgorithm._create_pipeline and create_pipeline of each algorithm")],["the pipelines built"])
p("C27","Input and output adapters neither lose nor alter messages",
"Readers deliver every message of the given topic, subscription or file, decoded as UTF-8 where bytes are received; number readers keep exactly the one-line messages made only of digits and convert them to integers, JSON readers parse every message. Writers send every element to the given destination, encoded as UTF-8 for Pub/Sub.",
["inputs"],"every message and every source or destination",
"tests run on a few fixed files",
["sawatabi/algorithm/io.py"],[("transform chains","IO")],["the transforms returned"])
p("C28","Importing a PyQUBO model keeps every term and the offset",
"Importing a PyQUBO expression or model adds one interaction per term of its QUBO, linear for a term on one variable and quadratic for a pair, on the variables of the model that the term names, with the negated coefficient, placeholders included, and sets the offset to the offset of the QUBO.",
["inputs"],"every expression over the variables of the model",
"tests import a few expressions",
[LM],[("term loop","LogicalModel.from_pyqubo")],["interactions and offset after from_pyqubo"])
p("C29","Samplers get the whole model and return its energies unchanged",
"The local and the D-Wave solver pass the complete binary quadratic model of the given physical model, in the default sign, and the caller's sampling options unchanged to the sampler they were configured with, and return the sampleset of that sampler with samples and energies unchanged.",
["inputs","configurations"],"every model and option",
"tests sample a few fixed models",
[LS,DS],[("conversion and call of the sampler","LocalSolver.solve, DWaveSolver.solve")],["samplesets"])
p("C30","Variable arrays are created and grown as requested",
"Declaring variables creates an array of the given name and shape with the variable type of the model, or takes over a given array of the right type and rejects one of the wrong type; appending adds the given shape elementwise to the current one and declares the array when it does not exist. The sizes reported are the product of the dimensions summed over all arrays, minus the deleted and fixed ones for the alive size.",
["inputs","histories"],"every sequence of declarations, every shape",
"tests declare a few arrays",
[LM,"sawatabi/utils/functions.py"],[("array creation","LogicalModel.variables, LogicalModel.append"),("elementwise functions","Functions")],["get_variables, sizes"])
p("C31","The number partitioning reference solver is optimal",
"The dynamic programming solver returns True with two index sets of equal sum when the numbers can be split exactly, and False with a split of minimal difference otherwise.",
["inputs"],"every list of positive integers","tests use a few lists",
["sawatabi/utils/npp.py"],[("DP table","solve_npp_with_dp")],["return value"])
p("C32","Annealing finds good solutions",
"Given enough sweeps, the simulated annealing solver finds an optimal solution of small problems with high probability.",
["inputs","schedules"],"every model and random sequence","tests try a few models with fixed seeds",
[SS,LS],[("annealing","SawatabiSolver.annealing")],["sampleset energies"])
p("C33","Time and profiling helpers report real durations in the stated unit",
"The current-time helpers return the time in seconds, milliseconds, microseconds or nanoseconds as their names say, truncated for the integer variants, and the profiling decorator returns the result of the wrapped function called with the same arguments, its name and its execution time.",
["inputs"],"every call","tests compare magnitudes for one call",
["sawatabi/utils/time.py","sawatabi/utils/profile.py"],[("unit factors","sawatabi.utils.time"),("wrapper","sawatabi.utils.profile")],["return values"])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
import jsonschema
