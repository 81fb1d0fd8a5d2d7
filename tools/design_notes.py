NOTES = {
"C01": "Postcondition of each match function: result <=> set membership, written over ghost region predicates; the ternary one uses a proved contract of the input discretiser (`float_to_binary`).",
"C02": "Postcondition: result <=> interval/symbol containment; the consequence for inputs is the implication between the C01 membership predicates.",
"C03": "Postcondition of each cover: the C01 membership predicate holds for the given state; `cl_cover` composes them through the vtable contracts.",
"C04": "Every random draw is havocked within its range; legality and flag <=> change are postconditions over all draws.",
"C05": "Quadratic basis indexed by the closed form of the triangular offsets; each output is a sum term with its own row.",
"C06": "Running-mean/delta form as postconditions; NLMS step per weight. `pred_rls_update` is a matrix recursion over four loops with nonlinear sums: bounded stand-in (native oracle).",
"C07": "Each loss equals a spec sum; congruence of sums proves it; identifier dispatch by case split on all strings.",
"C08": "Per-rule recurrences, then per-list by ghost list positions; the set loop invariant is 'prefix updated, suffix untouched'.",
"C09": "Vote = spec function; roulette = prefix sum interval containing the draw; deletion = numerosity minus one or removal, everything else framed.",
"C10": "Ghost sequence per list (node and rule by position), size = length, num = sum of numerosities; blocks freed exactly once.",
"C11": "Result list = filter of the population by match / by action, both directions, each member once.",
"C12": "Do-while invariant: members that matched stay, coverage vector is recomputed from the list; at exit all actions covered.",
"C13": "Reset/argmax/accessors proved; `pa_build` (double sum over list and action with division) bounded stand-in unless stated proved.",
"C14": "Fold over the list with the running subsumer; absorbed rules are exactly those generalised.",
"C15": "Offspring construction and insertion proved against the contracts of operators and population; parents' selection intervals as in C09.",
"C16": "Allocation sizes, ranges, deep copies with no shared block, free of exactly the owned blocks.",
"C17": "Byte-exact model of the maze grid with bounds obligations on every index; multiplexer value by arithmetic on the address bits.",
"C18": "Typestate protocol on sets (closed/open/stale/dangling) with logs of update and EA calls as ghost state; trial, step and credit functions against it.",
"C19": "Same protocol; sample index as function of trial number and shuffle flag; scores as spec sums.",
"C20": "The precondition of each load is the stream obtained by symbolically running the real save on a ghost object, rewound; load must rebuild that object and stop where save stopped. Callers see a part as one typed record (proved for that part). `layer_args_load` (list of 25-field records appended at the tail): bounded stand-in, native round trip.",
"C21": "Table of ranges -> one contract per setter (stored / refused / clamped, frame = that field only), so the range invariant established by `param_init` is inductive; names are compared character by character, over all strings.",
"C22": "Store: loop invariant 'the store holds copies of the first k rules in reverse', one obligation per copied field, fresh storage, release ghosts per rule. Retrieve: the store's list becomes the population's, the rules of the old one released once, none of the stored ones.",
"C23": "`xcsf_init`/`xcsf_free` against the contracts of the set functions; filling loop invariant 'k new rules of one copy, numerosity grown by k'. A population file (JSON text) is outside: precondition 'no file is named'.",
"C24": "`clset_mfrac` against the fold functions 'widest accurate' and 'first of least error' (their meaning proved by the lemmas fold_max and fold_least); running averages as postconditions of `clset_match` and `clset_action`.",
"C25": "One postcondition per function over uninterpreted exp, log, tanh, sin, cos; names compared character by character; arrays with the activation abstracted to a function symbol.",
"C26": "Sum-of-products function per transposition; element p of C decoded to (row, column) by function symbols constrained by row_offsets, so one quantifier covers every shape; layer functions against the contract of the product.",
"C27": "All draws havocked. Active-connection count as a spec function with the count_update lemma; 'every row/column has an active element' as predicates with witness functions preserved by monotone updates; reallocation keeps contents.",
"C28": "Generated per kind from one table: post-state fields equal the request / the source, arrays fresh, distinct, of the right byte size and zero. Loading is proved against the symbolic execution of the real save function (the stream it wrote is the pre-state). free/resize track the freed set. Resizing a fully-connected layer decodes each position of the new matrix to (row, column) and relates it to the old one. Recurrent, LSTM and convolutional layers are outside.",
"C29": "Per-element postconditions. Pool and upsample loops carry an ordinal of the output reached so far (function symbols with ground facts per iteration, justified by row_offsets); max_pool against a fold over the window; scattered errors as a running sum per input. exp is an uninterpreted positive function.",
"C30": "List invariant over a ghost sequence (tail first) with inverse maps for nodes and layers; the layer interface keeps a ghost log (clock, input, errors, result) per layer, so order and arguments of every call are postconditions. Layer kinds are behind trusted table contracts, their own proofs are C26, C28, C29 and C27. Loading is proved against the symbolic execution of the real save function, with a layer's record as one token. Insertion is proved for the output end (what push uses); removal is not covered.",
}
