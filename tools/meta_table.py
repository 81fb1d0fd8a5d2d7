p("C01", "Matching is exactly set membership in the condition's region",
  "A rule with a hyperrectangle, hyperellipsoid, ternary or dummy condition matches an input if and only if the input lies in the region the condition denotes: every coordinate within its closed interval (centre-spread or min-max form), squared standardised distance to the centre below one, every non-# symbol equal to the corresponding bit of the input's fixed-point code, or always. "
  "Evaluating a match records the result on the rule, adds one to the number of inputs it was tested on and adds one to the number it matched exactly when it matched.",
  ["inputs", "configurations"], "every input vector of every dimension, every gene assignment, every number of bits, both interval encodings",
  "the unit tests evaluate one true and one false example per representation; the statement quantifies over all inputs, gene values and dimensions including boundary values",
  ["xcsf/cond_rectangle.c", "xcsf/cond_ellipsoid.c", "xcsf/cond_ternary.c", "xcsf/cond_dummy.c", "xcsf/cl.c", "xcsf/utils.h"],
  [("cond_rectangle_match", "xcsf/cond_rectangle.c"), ("cond_ellipsoid_match", "xcsf/cond_ellipsoid.c"), ("cond_ternary_match", "xcsf/cond_ternary.c"),
   ("float_to_binary", "xcsf/utils.h"), ("cl_match", "xcsf/cl.c")])
p("C02", "A rule judged more general contains the rule it subsumes",
  "For hyperrectangle and ternary conditions one rule is judged more general than another exactly when its condition's region contains the other's, per interval (touching or identical bounds count) or per symbol (a ternary rule identical to the other does not count), and both advocate the same action. "
  "Consequently every input accepted by the more specific rule is accepted by the more general one; dummy conditions are never judged more general.",
  ["inputs", "configurations"], "every pair of conditions, every dimension, both interval encodings, every ternary string length",
  "tests compare two or three fixed pairs of rules; an error in one coordinate or for equal bounds is invisible to them",
  ["xcsf/cond_rectangle.c", "xcsf/cond_ternary.c", "xcsf/act_integer.c", "xcsf/cl.c"],
  [("cond_rectangle_general", "xcsf/cond_rectangle.c"), ("cond_ternary_general", "xcsf/cond_ternary.c"), ("act_integer_general", "xcsf/act_integer.c"),
   ("cl_general", "xcsf/cl.c")])
p("C03", "Covering produces a fresh rule that matches the input",
  "A rule created by covering accepts the input it was created for, whatever the input, representation and legal parameters (for hyperellipsoids provided the input range is not a single point), and advocates exactly the requested action. "
  "It starts with the configured initial error and fitness, zero experience, numerosity one, and the time stamp and set size it was given.",
  ["inputs", "configurations"], "every input, every representation, every legal range, spread and don't-care probability, every random draw",
  "tests cover one input with one seed; the statement holds for every input and every value the generator can return",
  ["xcsf/cond_rectangle.c", "xcsf/cond_ellipsoid.c", "xcsf/cond_ternary.c", "xcsf/act_integer.c", "xcsf/cl.c", "xcsf/utils.c"],
  [("cond_*_cover", "xcsf/cond_rectangle.c"), ("cl_cover", "xcsf/cl.c"), ("cl_init", "xcsf/cl.c"), ("rand_uniform", "xcsf/utils.c")])
p("C04", "Genetic operators keep genes legal and report changes truthfully",
  "Mutating an interval, ellipsoid or ternary condition or an integer action leaves every gene legal (centres and bounds within the input range, spreads positive, symbols 0, 1 or #, action a valid label) and its mutation rate within [0.0005, 1], and a change is reported exactly when some gene changed. "
  "Crossover only exchanges genes position by position between the two parents and, if it reports no change, has changed nothing; a rule reports a mutation or crossover exactly when one of its parts did.",
  ["inputs", "configurations"], "every parent, every dimension, every random draw of the generators, every crossover probability",
  "tests run one mutation with one seed and look at whether something changed; illegal genes or a false flag need particular draws",
  ["xcsf/cond_rectangle.c", "xcsf/cond_ellipsoid.c", "xcsf/cond_ternary.c", "xcsf/act_integer.c", "xcsf/cl.c", "xcsf/sam.c"],
  [("cond_*_mutate", "xcsf/cond_rectangle.c"), ("cond_*_crossover", "xcsf/cond_rectangle.c"), ("act_integer_mutate", "xcsf/act_integer.c"),
   ("cl_mutate", "xcsf/cl.c"), ("sam_adapt", "xcsf/sam.c")])

p("C05", "A rule's prediction is its configured function of the input",
  "For constant predictions the output is the stored estimate; for linear and quadratic least-squares predictions each output is the weighted sum, with that output's own weights, of the offset, the input variables and, when quadratic, every product of two input variables taken once. "
  "This holds for every number of inputs and outputs, and the computed vector is the one the rule hands out.",
  ["inputs", "configurations"], "every input vector, every dimension of input and output, every weight vector, linear and quadratic basis",
  "tests evaluate one input of fixed dimension; an index slip for another dimension or output is invisible",
  ["xcsf/prediction.c", "xcsf/pred_constant.c", "xcsf/pred_nlms.c", "xcsf/pred_rls.c", "xcsf/blas.c", "xcsf/cl.c"],
  [("pred_transform_input", "xcsf/prediction.c"), ("pred_nlms_compute", "xcsf/pred_nlms.c"), ("pred_rls_compute", "xcsf/pred_rls.c"), ("cl_predict", "xcsf/cl.c")])
p("C06", "Prediction learning applies the stated update to every output",
  "A learning step moves a constant prediction to the running mean of the targets while experience times the learning rate is below one and by the learning rate times the error afterwards, and changes each least-squares weight by the normalised (or recursive) least-squares step for its own output and basis term, and no other weight. "
  "Evolving the learning rate of a rule keeps it between the configured minimum and maximum and is reported exactly when the rate changed.",
  ["inputs", "configurations"], "every input, target, weight vector, experience and learning rate, every number of outputs",
  "tests check convergence on one target with a tolerance; a wrong step for some output or experience still converges",
  ["xcsf/pred_constant.c", "xcsf/pred_nlms.c", "xcsf/pred_rls.c", "xcsf/blas.c"],
  [("pred_constant_update", "xcsf/pred_constant.c"), ("pred_nlms_update", "xcsf/pred_nlms.c"), ("pred_nlms_mutate", "xcsf/pred_nlms.c"), ("pred_rls_update", "xcsf/pred_rls.c")])
p("C07", "Every loss function computes its definition",
  "The mean absolute, mean squared, root mean squared, log, binary log, one-hot and Huber losses equal their definitions for every prediction, target and output dimension (logarithms are of values floored at machine epsilon, one-hot looks at the first largest output, Huber is quadratic up to its threshold and linear beyond). "
  "Choosing a loss by its identifier selects exactly that function, and an unknown identifier is rejected without changing the current choice.",
  ["inputs", "configurations"], "every prediction and target vector of every dimension, every threshold, every identifier",
  "tests evaluate one vector per loss",
  ["xcsf/loss.c", "xcsf/utils.h"],
  [("loss_mae", "xcsf/loss.c"), ("loss_huber", "xcsf/loss.c"), ("loss_onehot", "xcsf/loss.c"), ("loss_set_func", "xcsf/loss.c")])
p("C08", "Rule parameters follow the stated reinforcement updates",
  "Updating a set adds one to each member's experience and moves its error and set-size estimate to the running mean of what it has seen while experience times the learning rate is below one, and by the learning rate times the difference afterwards, using the prediction made before learning. "
  "Each member's fitness then moves by the learning rate towards its share (accuracy times copies) of the set's total accuracy, where accuracy is one up to the target error and a floored power law beyond; fitness stays positive and no rule outside the set changes.",
  ["inputs", "histories", "configurations"], "every rule state, every set, every target, every parameter setting",
  "tests update one rule once and compare two numbers",
  ["xcsf/cl.c", "xcsf/clset.c"],
  [("cl_update", "xcsf/cl.c"), ("cl_acc", "xcsf/cl.c"), ("cl_update_fit", "xcsf/cl.c"), ("clset_update_fit", "xcsf/clset.c")])
p("C09", "Deletion removes one copy of the rule the policy selects",
  "When the population is over its limit, the copy removed belongs to the first rule that has been tested beyond its probation without ever matching and otherwise to a rule drawn by roulette with probability proportional to its deletion vote (set size times copies, raised for experienced rules of low fitness), the larger of two draws when compaction applies. "
  "Exactly one copy disappears, every other rule is untouched, and a rule leaves the population only when its last copy is removed.",
  ["inputs", "histories", "configurations"], "every population, every random draw, every deletion parameter",
  "tests delete from one population with one seed and look at totals",
  ["xcsf/clset.c", "xcsf/cl.c"],
  [("clset_pset_never_match", "xcsf/clset.c"), ("clset_pset_roulette", "xcsf/clset.c"), ("clset_pset_del", "xcsf/clset.c"), ("cl_del_vote", "xcsf/cl.c")])
p("C10", "Population accounts are exact and the size limit is enforced",
  "After every operation the recorded number of rules of the population equals the number of rules in it, its recorded numerosity equals the sum of their copies, every rule has at least one copy and occurs once. "
  "Enforcing the limit leaves the numerosity at most the limit and deletes no more copies than needed; rules removed are queued for release exactly once, are no longer in the population, and releasing a set frees each of its rules exactly once.",
  ["histories", "inputs"], "every sequence of insertions, deletions, subsumptions and releases, every population",
  "tests perform a few insertions and deletions and compare two counters",
  ["xcsf/clset.c", "xcsf/cl.c"],
  [("clset_add", "xcsf/clset.c"), ("clset_validate", "xcsf/clset.c"), ("clset_pset_enforce_limit", "xcsf/clset.c"), ("clset_kill", "xcsf/clset.c")])
p("C11", "Match and action sets contain exactly the rules they should",
  "The match set built for an input contains each rule of the population whose condition accepts the input exactly once and no other existing rule; each member carries the action its rule computes for that input, and without covering neither the population nor any rule's copies change. "
  "The action set contains exactly the members of the match set advocating the chosen action, both sets record their exact size and numerosity, and the running average set sizes move by the learning rate towards the new sizes.",
  ["inputs", "histories", "configurations"], "every population, every input, every number of actions, every condition type",
  "tests build the sets for one small population and compare two counters",
  ["xcsf/clset.c", "xcsf/cl.c"],
  [("clset_match", "xcsf/clset.c"), ("clset_action", "xcsf/clset.c"), ("cl_match", "xcsf/cl.c"), ("cl_m", "xcsf/cl.c")])
p("C12", "After covering, every action is advocated and nothing else changed",
  "Matching with covering switched on ends with every action advocated by at least one rule of the match set, even when making room for the new rules deletes others; every rule that covering adds is new, matches the input, has the requested action and joins both the population and the match set. "
  "Members of the match set are always rules still in the population, matching rules leave it only by losing their last copy, no existing rule gains copies, and the population does not exceed the larger of its limit and what it held before.",
  ["inputs", "histories", "configurations"], "every population, input, number of actions, population limit, deletion choice",
  "tests cover an empty population once; the interplay with deletion during covering is never exercised",
  ["xcsf/clset.c", "xcsf/cl.c"],
  [("clset_cover", "xcsf/clset.c"), ("clset_action_coverage", "xcsf/clset.c"), ("clset_match", "xcsf/clset.c"), ("clset_pset_enforce_limit", "xcsf/clset.c")])
p("C13", "The system prediction is the fitness-weighted mean per action",
  "For every action and output the system prediction is the fitness-weighted mean of the predictions that the match set's rules advocating that action make for the input, and zero when no rule advocates it. "
  "The best action is one of those with the largest prediction, the best value is that maximum, the value of an action is its first entry, and random exploration only picks an action that some rule advocates.",
  ["inputs", "configurations"], "every match set, input, number of actions and outputs, fitness and prediction, every random draw",
  "tests build the array for one set with a tolerance",
  ["xcsf/pa.c", "xcsf/cl.c"],
  [("pa_build", "xcsf/pa.c"), ("pa_best_action", "xcsf/pa.c"), ("pa_best_val", "xcsf/pa.c"), ("pa_rand_action", "xcsf/pa.c")])
p("C14", "Set subsumption only merges into a more general, accurate rule",
  "Set subsumption transfers the copies of a rule only to one member of the set that is experienced beyond the threshold, has an error below the target error and is judged more general than the rule it absorbs; absorbed rules leave both the set and the population and are queued for release. "
  "The total number of copies in the population and in the set is unchanged, and all other rules stay as they were.",
  ["inputs", "histories", "configurations"], "every set, every population, every threshold, every condition type",
  "tests subsume in one hand-made set",
  ["xcsf/clset.c", "xcsf/cl.c"],
  [("clset_subsumption", "xcsf/clset.c"), ("cl_subsumer", "xcsf/cl.c"), ("cl_general", "xcsf/cl.c"), ("clset_validate", "xcsf/clset.c")])
p("C15", "The genetic algorithm selects, breeds and inserts as defined",
  "The algorithm runs exactly when the mean time since the set was last evolved reaches the threshold; it then stamps every member, picks parents from the set (roulette in proportion to fitness, or the fittest of a random sample), and adds exactly the configured number of copies before the population limit is enforced. "
  "Each new rule is inexperienced, carries the current time and an error and fitness derived by the configured reductions from its parents (averaged if genes were exchanged); an offspring left unchanged only adds a copy to its parent. "
  "With subsumption an offspring joins the population only if no accurate, experienced, more general member of the set can absorb it, and exactly one such rule gains a copy otherwise.",
  ["inputs", "histories", "configurations"], "every set, every population, every parameter setting, every random draw",
  "there is no unit test of the genetic algorithm; an error in one branch shows only as a different learning curve",
  ["xcsf/ea.c", "xcsf/cl.c", "xcsf/clset.c"],
  [("ea", "xcsf/ea.c"), ("ea_add", "xcsf/ea.c"), ("ea_subsume", "xcsf/ea.c"), ("ea_select_rw", "xcsf/ea.c"), ("ea_init_offspring", "xcsf/ea.c")])
p("C16", "Rules are created in range, copied faithfully and released once",
  "A newly created rule of any basic kind uses the configured representation, has genes, action, learning rate, mutation rates and weights within their configured ranges or at their configured initial values, and blocks large enough for its dimensions. "
  "A copy has the same condition, action and prediction parameters as its original and shares no storage with it, so changing or releasing one never affects the other. "
  "Releasing a rule frees each of its blocks exactly once and nothing else.",
  ["inputs", "configurations"], "every basic condition, action and prediction type, every dimension, every range and rate, every random draw",
  "tests copy one rule of fixed small dimensions and compare some fields; sharing, ranges, sizes and other dimensions are not exercised",
  ["xcsf/cl.c", "xcsf/cond_rectangle.c", "xcsf/cond_ellipsoid.c", "xcsf/cond_ternary.c", "xcsf/act_integer.c", "xcsf/pred_nlms.c", "xcsf/pred_rls.c", "xcsf/condition.c", "xcsf/prediction.c"],
  [("cl_copy", "xcsf/cl.c"), ("cl_init_copy", "xcsf/cl.c"), ("cl_free", "xcsf/cl.c"), ("cond_rectangle_copy", "xcsf/cond_rectangle.c"), ("pred_nlms_copy", "xcsf/pred_nlms.c"), ("condition_set", "xcsf/condition.c")])

p("C17", "The built-in environments pose the problem they claim to pose",
  "The multiplexer pays one exactly for the action equal to the data bit that its address bits (most significant first) select, and sizes itself to the largest multiplexer that fits the requested number of bits. "
  "In a maze each of the eight moves leads to the neighbouring cell with wrap-around unless it is an obstacle, payoff and end of trial occur exactly at the goal, the eight sensors show the surrounding cells, and every trial starts on an empty cell. "
  "Loading a maze never stores anything outside the maximum maze and rejects larger ones.",
  ["inputs", "histories", "configurations"], "every state of bits, every number of bits, every maze up to the maximum size, every position and move, every maze file",
  "there are no unit tests of the environments; a wrong cell at one edge or corner only degrades learning",
  ["xcsf/env_mux.c", "xcsf/env_maze.c"],
  [("env_mux_execute", "xcsf/env_mux.c"), ("env_mux_init", "xcsf/env_mux.c"), ("env_maze_execute", "xcsf/env_maze.c"), ("env_maze_get_state", "xcsf/env_maze.c"), ("env_maze_init", "xcsf/env_maze.c")])
p("C18", "Reinforcement learning credits each transition once, to the right rules",
  "After every step the rules that advocated the previous action are updated exactly once, on the previous state, towards the previous reward plus the discounted best current prediction; when the problem ends the current action's rules are updated towards the reward itself, and rule discovery follows each update exactly when exploring. "
  "No rule that has been deleted takes part in an update, no set is left in use and none is used after its rules were released. "
  "A trial ends at the end of the problem or the step limit and reports its number of steps (or success for one-step problems) and the mean step error; an experiment reports the mean over its exploitation trials.",
  ["inputs", "histories", "configurations", "random draws"], "every environment, episode length, reward sequence, discount, exploration rate, population size that forces deletions within an episode",
  "there are no tests of multi-step trials; a wrong target, a stale set or a missed update shows only as slower learning or a rare crash",
  ["xcsf/xcs_rl.c"],
  [("xcs_rl_update", "xcsf/xcs_rl.c"), ("xcs_rl_trial", "xcsf/xcs_rl.c"), ("xcs_rl_end_step", "xcsf/xcs_rl.c"), ("xcs_rl_fit", "xcsf/xcs_rl.c"), ("xcs_rl_error", "xcsf/xcs_rl.c")])
p("C19", "Supervised training, prediction and scoring present each sample correctly",
  "Training presents one row per trial, in order from the given start (or random rows when shuffling), always with that row's own target, learns from it exactly once, and returns the mean loss of the predictions made before learning while the running error follows their moving average; test rows are judged without learning. "
  "Prediction and scoring never change the rules by learning, visit every sample once, write each sample's outputs in that sample's place, return the mean loss, and use the given default exactly when no rule matches. "
  "Every working set is released after every sample.",
  ["inputs", "histories", "configurations"], "every data set size and dimension, start position, number of trials, shuffle and test option, default prediction or none",
  "tests fit small fixed data and compare the resulting score loosely",
  ["xcsf/xcs_supervised.c", "xcsf/perf.c"],
  [("xcs_supervised_fit", "xcsf/xcs_supervised.c"), ("xcs_supervised_trial", "xcsf/xcs_supervised.c"), ("xcs_supervised_predict", "xcsf/xcs_supervised.c"), ("xcs_supervised_score_n", "xcsf/xcs_supervised.c")])
p("C20", "A saved system is restored exactly by loading it",
  "Loading a file written by saving a system restores every parameter (including the settings of layers, graphs and trees), the averages and time, and the population: the same rules in the same order with the same statistics, genes, actions, weights and rates, for every basic, tree and graph representation. "
  "Exactly as many records are read as were written, nothing is left over, and every restored object owns storage large enough for the restored dimensions. "
  "This holds whatever configuration, dimensions and population the loading system had before.",
  ["inputs", "histories", "configurations"], "every parameter value, every representation other than neural networks, every population including the empty one, every configuration of the system loaded into",
  "tests save and load one rule at a time with equal configurations; a field skipped or swapped, a wrong order or a stale buffer for other dimensions is invisible",
  ["xcsf/xcsf.c", "xcsf/param.c", "xcsf/clset.c", "xcsf/cl.c", "xcsf/condition.c", "xcsf/prediction.c", "xcsf/action.c", "xcsf/ea.c", "xcsf/gp.c", "xcsf/dgp.c", "xcsf/cond_ternary.c", "xcsf/pred_rls.c"],
  [("xcsf_load", "xcsf/xcsf.c"), ("param_load", "xcsf/param.c"), ("clset_pset_load", "xcsf/clset.c"), ("cl_load", "xcsf/cl.c"), ("cond_param_load", "xcsf/condition.c"), ("tree_args_load", "xcsf/gp.c")])
p("C21", "Parameters only ever hold legal values",
  "A new system has every parameter of the learner, the evolutionary algorithm, conditions, actions, predictions, trees and graphs within its legal range, the dimensions it was given, and default layers that fit together. "
  "Each later setting stores a legal value exactly, and otherwise either refuses it with a message leaving the parameter as it was or stores the nearest legal value; no setting touches any other parameter, and a population file name is kept (up to its maximum length) as a terminated private copy. "
  "Choosing a representation, selection or loss by name selects exactly the one so named, every name is the inverse of its number, and an unknown name is refused without effect.",
  ["inputs", "configurations"], "every setter, every value including the exact bounds, every name of any length, every order of settings",
  "tests set a few legal values; the bounds, the refusals and the absence of side effects on other parameters are not exercised",
  ["xcsf/param.c", "xcsf/ea.c", "xcsf/condition.c", "xcsf/prediction.c", "xcsf/action.c", "xcsf/gp.c", "xcsf/dgp.c", "xcsf/loss.c"],
  [("param_set_*", "xcsf/param.c"), ("ea_param_set_*", "xcsf/ea.c"), ("cond_param_set_*", "xcsf/condition.c"), ("pred_param_set_*", "xcsf/prediction.c"), ("param_init", "xcsf/param.c"), ("condition_type_as_int", "xcsf/condition.c")])
p("C22", "A stored population is an independent, complete copy",
  "Storing the population keeps a copy of every rule, with its statistics, parts and current prediction, and the same size and numerosity, while the population itself is unchanged; the copy shares no storage with it, so whatever happens to the population afterwards leaves the copy as it was. "
  "Retrieving makes the stored copy the population and gives up the store; with nothing stored it changes nothing. "
  "Each rule that is replaced is released exactly once, and no rule still in use is released.",
  ["inputs", "histories"], "every population including the empty one, every earlier store, every kind of rule",
  "one test stores a population and checks that a retrieved one is not empty; a field left out of the copy or storage shared with it stays unseen",
  ["xcsf/xcsf.c", "xcsf/cl.c", "xcsf/clset.c"],
  [("xcsf_store_pset", "xcsf/xcsf.c"), ("xcsf_retrieve_pset", "xcsf/xcsf.c"), ("cl_init_copy", "xcsf/cl.c"), ("clset_kill", "xcsf/clset.c")])
p("C23", "A new system starts clean and a released one leaves nothing behind",
  "A new system has time, averages and stored population empty, its error at the target, and a population that is empty or, when so configured and no population file is named, filled with distinct random rules of one copy each up to exactly the maximum size, each with initial fitness, initial error, no experience and zero prediction. "
  "Releasing a system releases every rule of the population and of the stored copy exactly once and leaves both empty and the counters reset.",
  ["inputs", "configurations"], "every maximum size, configuration and kind of rule",
  "tests start systems of one size and look at one field",
  ["xcsf/xcsf.c", "xcsf/clset.c", "xcsf/cl.c"],
  [("xcsf_init", "xcsf/xcsf.c"), ("xcsf_free", "xcsf/xcsf.c"), ("clset_pset_init", "xcsf/clset.c")])
p("C24", "Reported statistics describe the current population",
  "The reported match fraction is that of the widest experienced rule whose error is below the target, or of the first experienced rule of least error if no such rule has matched, or zero; a rule's own fraction is its matches over the inputs it has seen. "
  "Mean condition and prediction sizes are the plain averages over the rules of the set, and the running averages of set sizes and match fraction move towards the values after covering by the learning rate at each match or action set and at no other time.",
  ["inputs", "histories"], "every population, experience, error, target and learning rate",
  "tests check only that a statistic can be computed",
  ["xcsf/clset.c", "xcsf/cl.c"],
  [("clset_mfrac", "xcsf/clset.c"), ("clset_mean_cond_size", "xcsf/clset.c"), ("clset_match", "xcsf/clset.c"), ("cl_mfrac", "xcsf/cl.c")])
p("C25", "Neural activation functions, their slopes and names are as defined",
  "Each activation (logistic, rectified, tanh, linear, gaussian, sine, cosine, soft plus, leaky, scaled exponential, symmetric logistic) and its slope equal their definitions for every input, and its name and number are inverse to each other; an unknown name or number is rejected. "
  "Activating an array limits each state to the neuron range before applying the function, weighting errors multiplies each by the slope at its state, and no element beyond the stated length changes.",
  ["inputs", "configurations"], "every real input, every function, every array length",
  "tests evaluate each function at two or three points",
  ["xcsf/neural_activations.c", "xcsf/neural_activations.h"],
  [("neural_activate", "xcsf/neural_activations.c"), ("neural_gradient", "xcsf/neural_activations.c"), ("neural_activate_array", "xcsf/neural_activations.c"), ("neural_gradient_array", "xcsf/neural_activations.c")])
p("C26", "Fully-connected layers compute and learn by exact gradient steps",
  "The general matrix product gives beta C plus alpha A B for every shape, transposition and row stride and changes nothing else; a fully-connected layer's output is its activation of bias plus weighted inputs. "
  "Its backward pass multiplies the errors by the slope, adds error times input to each weight's gradient and the error to each bias's when learning is on, and adds the errors weighted by the connections to the errors passed back. "
  "An update moves weights and biases by the learning rate along their gradient (less decay for weights), keeps them within the weight limits and inactive ones at zero, scales the gradient by the momentum, and changes nothing when learning is off or the rate is zero.",
  ["inputs", "configurations"], "every layer shape, weight, input, error, learning rate, momentum and decay",
  "tests run one shape of layer and compare one output vector; a stride or transposition error shows only for other shapes",
  ["xcsf/blas.c", "xcsf/neural_layer_connected.c", "xcsf/neural_layer.c", "xcsf/neural_activations.c"],
  [("blas_gemm", "xcsf/blas.c"), ("neural_layer_connected_forward", "xcsf/neural_layer_connected.c"), ("neural_layer_connected_backward", "xcsf/neural_layer_connected.c"),
   ("neural_layer_connected_update", "xcsf/neural_layer_connected.c"), ("layer_weight_clamp", "xcsf/neural_layer.c")])
p("C27", "Evolving a layer keeps it well formed and reports changes truthfully",
  "Mutating a layer keeps its learning rate in range, active weights and biases within the weight limits, its function a known one, and its size between one neuron and its maximum; a reported change is a real one and an unreported one has not happened. "
  "Disconnected weights are zero, the count of active connections is exact, and after repair every neuron has an active input and every input an active neuron with no connection lost. "
  "Growing or shrinking keeps the parameters of the remaining neurons and gives new ones zero bias, no momentum and active connections unless connectivity evolves.",
  ["inputs", "configurations", "histories"], "every layer shape and content, every mutation rate, every random draw",
  "tests mutate one layer with one seed and check that something changed",
  ["xcsf/neural_layer.c"],
  [("layer_mutate_weights", "xcsf/neural_layer.c"), ("layer_mutate_connectivity", "xcsf/neural_layer.c"), ("layer_add_neurons", "xcsf/neural_layer.c"), ("layer_ensure_input_represention", "xcsf/neural_layer.c")])
p("C28", "Layers are made, copied, resized, stored and released faithfully",
  "A new fully-connected, dropout, noise, softmax, pooling or upsampling layer has the sizes, image shape and options asked for, zeroed outputs and errors and, if it has weights, every connection active and counted; its copy has the same parameters in storage of its own and no momentum. "
  "A stored layer loads back with the same parameters, and releasing a layer frees each of its arrays once. "
  "Fitting a layer to a changed one before it gives the matching sizes, keeps each neuron's connections to the inputs that remain and connects it to new ones without momentum.",
  ["inputs", "configurations", "histories"], "every kind of layer named, every size, every content, every pair of old and new sizes",
  "tests create and copy one shape of each layer; an error in one field, or in the row stride after resizing, shows only for other shapes",
  ["xcsf/neural_layer_connected.c", "xcsf/neural_layer_dropout.c", "xcsf/neural_layer_noise.c", "xcsf/neural_layer_softmax.c", "xcsf/neural_layer_maxpool.c", "xcsf/neural_layer_avgpool.c", "xcsf/neural_layer_upsample.c"],
  [("neural_layer_connected_resize", "xcsf/neural_layer_connected.c"), ("neural_layer_connected_copy", "xcsf/neural_layer_connected.c"), ("neural_layer_connected_load", "xcsf/neural_layer_connected.c"),
   ("neural_layer_maxpool_load", "xcsf/neural_layer_maxpool.c"), ("neural_layer_dropout_copy", "xcsf/neural_layer_dropout.c")])
p("C29", "Layers without weights compute their outputs and errors as defined",
  "Dropout passes each input on scaled, or zero with the given probability, when training and unchanged otherwise; noise likewise alters or passes on; softmax gives the exponentials of the scaled inputs over their sum; average pooling the mean of each plane, max pooling the largest input of each window within the image, upsampling a repeat of each input. "
  "The backward pass adds to each input's error exactly what belongs to it: the error of the units it was passed on to, the equal share of its plane, the errors of the windows whose maximum it was, or the errors of its repeats; no other error changes.",
  ["inputs", "configurations"], "every size, stride, padding, window, input, error and random draw",
  "tests run one small image per layer and compare one output",
  ["xcsf/neural_layer_dropout.c", "xcsf/neural_layer_noise.c", "xcsf/neural_layer_softmax.c", "xcsf/neural_layer_maxpool.c", "xcsf/neural_layer_avgpool.c", "xcsf/neural_layer_upsample.c"],
  [("neural_layer_maxpool_forward", "xcsf/neural_layer_maxpool.c"), ("neural_layer_upsample_backward", "xcsf/neural_layer_upsample.c"), ("neural_layer_softmax_forward", "xcsf/neural_layer_softmax.c"),
   ("neural_layer_avgpool_backward", "xcsf/neural_layer_avgpool.c"), ("neural_layer_dropout_forward", "xcsf/neural_layer_dropout.c")])
p("C30", "A network makes, runs, trains, evolves and stores its layers in order",
  "Running a network feeds the input to the first layer and each layer's output to the next; learning clears all errors, sets the last layer's to the difference between target and output, passes errors back from the last layer to the first and then updates every layer once. "
  "A network made from a description, copied or loaded has the layers of the original in the same order, each described with the output sizes of the one before it, and after evolving or resizing neighbouring layers still fit together. "
  "Its size counts the active connections of its layers with weights, and releasing it releases every layer exactly once.",
  ["inputs", "configurations", "histories"], "networks of any number of layers of any kind, every input, target and random draw",
  "tests build networks of two or three layers; the wrong neighbour, order or stale size shows only with more layers or after growth",
  ["xcsf/neural.c", "xcsf/neural_layer.h"],
  [("neural_propagate", "xcsf/neural.c"), ("neural_learn", "xcsf/neural.c"), ("neural_mutate", "xcsf/neural.c"), ("neural_create", "xcsf/neural.c"), ("neural_copy", "xcsf/neural.c")])
