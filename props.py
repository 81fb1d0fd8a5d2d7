"""The properties, the contracts behind each, and the lemmas that link them."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
COMMON_ASSUMPTIONS = [
    "double arithmetic is treated as exact real arithmetic (no rounding, overflow, NaN or infinity); int arithmetic is mathematical",
    "malloc/calloc/realloc succeed; pointers obtained from different live allocations do not alias; array accesses of the caller-supplied buffers are within their allocation as stated in the preconditions",
    "OpenMP pragmas are dropped: parallel loops are verified with their sequential semantics",
    "termination is not proved",
]
COST = {}
PROPS = {}


def prop(pid, **k):
    PROPS[pid] = k


def run_lemma(name):
    import importlib
    m = importlib.import_module("specs.lemmas")
    return m.run(name)


_f = os.path.join(HERE, "properties.jsonl")
TITLES = {}
if os.path.exists(_f):
    for l in open(_f):
        if l.strip():
            d = json.loads(l)
            TITLES[d["id"]] = d["title"]

COND_F = ["condition.c", "action.c", "utils.c", "sam.c", "cond_rectangle.c", "cond_ellipsoid.c", "cond_ternary.c", "cond_dummy.c", "act_integer.c", "cl.c"]

prop("C01", mods=["tern", "rule", "life"], files=COND_F,
     funcs=["cond_rectangle_match", "cond_ellipsoid_match", "cond_ellipsoid_dist", "cond_ternary_match", "float_to_binary",
            "cond_dummy_match", "cl_match", "cl_m", "cl_mfrac", "condition_set", "cl_rand"])
prop("C02", mods=["tern", "rule", "life"], files=COND_F,
     funcs=["cond_rectangle_general", "cond_ternary_general", "cond_dummy_general", "act_integer_general", "cl_general", "condition_set", "action_set"])
prop("C03", mods=["tern", "rule", "life"], files=COND_F,
     funcs=["cond_rectangle_cover", "cond_ellipsoid_cover", "cond_ternary_cover", "float_to_binary", "act_integer_cover", "cl_cover",
            "cl_init", "rand_uniform", "rand_uniform_int", "cl_rand", "condition_set", "action_set"])
prop("C04", mods=["tern", "rule", "life"], files=COND_F,
     funcs=["cond_rectangle_mutate", "cond_rectangle_crossover", "cond_ellipsoid_mutate", "cond_ellipsoid_crossover",
            "cond_ternary_mutate", "cond_ternary_crossover", "cond_dummy_mutate", "cond_dummy_crossover",
            "act_integer_mutate", "act_integer_crossover", "cl_mutate", "cl_crossover", "clamp", "sam_adapt", "sam_init", "condition_set", "action_set"])

NUM_F = ["utils.c", "blas.c", "loss.c", "prediction.c", "pred_constant.c", "pred_nlms.c", "pred_rls.c", "cl.c"]
prop("C05", mods=["num", "life"], files=NUM_F,
     funcs=["pred_transform_input", "pred_nlms_compute", "pred_rls_compute", "pred_constant_compute", "blas_dot", "cl_predict", "prediction_set"])
prop("C06", mods=["num", "life"], files=NUM_F,
     funcs=["pred_constant_update", "pred_nlms_update", "pred_nlms_mutate", "blas_axpy", "blas_dot", "blas_scal", "clamp",
            "pred_constant_crossover", "pred_nlms_crossover", "pred_rls_crossover", "pred_constant_mutate", "pred_rls_mutate", "prediction_set", "pred_nlms_init", "pred_rls_init"],
     standin=["pred_rls_update"])
prop("C07", mods=["num"], files=NUM_F,
     funcs=["loss_mae", "loss_mse", "loss_rmse", "loss_log", "loss_binary_log", "loss_onehot", "loss_huber", "loss_set_func", "argmax"])
POP_F = ["utils.c", "cl.c", "clset.c"]
prop("C08", mods=["setop"], files=POP_F,
     funcs=["cl_update", "cl_acc", "cl_update_fit", "clset_update_fit", "clset_update", "cl_init"])
prop("C09", mods=["pop"], files=POP_F,
     funcs=["cl_del_vote", "clset_total_fit", "clset_pset_never_match", "clset_pset_roulette", "clset_pset_del", "cl_cond_size", "cl_pred_size"])
prop("C10", mods=["pop"], files=POP_F,
     funcs=["clset_init", "clset_add", "clset_validate", "clset_free", "clset_kill", "cl_free", "clset_pset_del", "clset_pset_enforce_limit",
            "clset_total_time", "clset_mean_time"])
prop("C11", mods=["setop"], files=POP_F,
     funcs=["clset_match", "clset_action", "cl_match", "cl_m", "cl_action", "clset_add", "clset_init"])
prop("C12", mods=["setop"], files=POP_F,
     funcs=["clset_cover", "clset_match", "clset_action_coverage", "clset_pset_enforce_limit", "clset_validate", "clset_add", "cl_cover", "cl_init"])
prop("C13", mods=["pa"], files=["pa.c"] + POP_F,
     funcs=["pa_reset", "pa_best_val", "pa_val", "pa_rand_action", "pa_init", "pa_best_action", "cl_predict", "rand_uniform_int"],
     standin=["pa_build"])
prop("C14", mods=["pop"], files=POP_F,
     funcs=["clset_subsumption", "cl_subsumer", "cl_general", "clset_validate", "clset_add"])
prop("C15", mods=["ea"], files=["ea.c"] + POP_F,
     funcs=["ea", "ea_init_offspring", "ea_select_rw", "ea_select_tournament", "ea_subsume", "ea_add", "clset_set_times", "clset_mean_time",
            "clset_total_fit", "cl_copy", "cl_init", "cl_crossover", "cl_mutate", "cl_subsumer", "cl_general"])
LIFE_F = COND_F + ["blas.c", "prediction.c", "pred_constant.c", "pred_nlms.c", "pred_rls.c"]
prop("C16", mods=["life"], files=LIFE_F,
     funcs=["cond_rectangle_init", "cond_rectangle_copy", "cond_rectangle_free", "cond_ellipsoid_init", "cond_ellipsoid_copy", "cond_ellipsoid_free",
            "cond_ternary_rand", "cond_ternary_init", "cond_ternary_copy", "cond_ternary_free", "act_integer_init", "act_integer_copy", "act_integer_free",
            "blas_fill", "pred_nlms_init", "pred_nlms_copy", "pred_nlms_free", "pred_rls_init", "pred_rls_copy", "pred_rls_free",
            "condition_set", "prediction_set", "action_set", "cl_rand", "cl_copy", "cl_init_copy", "cl_init", "cl_free", "sam_init", "rand_uniform"])

prop("C17", mods=["env"], files=["env_mux.c", "env_maze.c", "utils.c"],
     funcs=["env_mux_init", "env_mux_execute", "env_mux_get_state", "env_mux_is_done", "env_mux_multistep", "env_mux_maxpayoff",
            "env_maze_init", "env_maze_execute", "env_maze_sensor", "env_maze_get_state", "env_maze_reset", "env_maze_is_done",
            "env_maze_multistep", "env_maze_maxpayoff", "rand_uniform", "rand_uniform_int"])
prop("C18", mods=["rl"], files=["xcs_rl.c", "utils.c", "param.c", "perf.c"],
     funcs=["xcs_rl_trial", "xcs_rl_exp", "xcs_rl_fit", "xcs_rl_update", "xcs_rl_error", "xcs_rl_decision", "xcs_rl_init_trial", "xcs_rl_end_trial",
            "xcs_rl_init_step", "xcs_rl_end_step", "param_set_explore", "perf_print", "rand_uniform"])
prop("C19", mods=["sup"], files=["xcs_supervised.c", "utils.c", "param.c", "perf.c"],
     funcs=["xcs_supervised_sample", "xcs_supervised_trial", "xcs_supervised_fit", "xcs_supervised_predict", "xcs_supervised_score",
            "xcs_supervised_score_n", "param_set_explore", "perf_print", "rand_uniform_int"])

prop("C20", mods=["ser", "serpop", "serpar"], files=LIFE_F + ["gp.c", "dgp.c", "cond_gp.c", "cond_dgp.c", "rule_dgp.c", "clset.c", "ea.c", "param.c", "xcsf.c", "pa.c", "loss.c"],
     funcs=["cond_rectangle_load", "cond_ellipsoid_load", "cond_ternary_load", "cond_dummy_load", "cond_gp_load", "cond_dgp_load", "rule_dgp_cond_load",
            "act_integer_load", "pred_constant_load", "pred_nlms_load", "pred_rls_load", "cl_load", "clset_pset_reverse", "clset_pset_load",
            "ea_param_load", "action_param_load", "cond_param_load", "pred_param_load", "param_load", "xcsf_load"],
     standin=["layer_args_load"])

from specs.setp_table import TABLE as _T
prop("C21", mods=["setp"], files=["param.c", "ea.c", "condition.c", "prediction.c", "action.c", "gp.c", "dgp.c", "loss.c", "utils.c", "cond_neural.c", "pred_neural.c",
                                  "act_neural.c", "cond_gp.c", "cond_dgp.c", "cond_ternary.c", "neural_layer_args.c"],
     funcs=[r[0] for r in _T] + ["ea_param_set_select_type", "param_set_loss_func", "param_set_population_file"] +
     [k + s for k in ("condition_type", "prediction_type", "action_type", "ea_type", "loss_type") for s in ("_as_int", "_as_string")] +
     ["ea_param_set_type_string", "cond_param_set_type_string", "pred_param_set_type_string", "action_param_set_type_string", "param_set_loss_func_string",
      "ea_param_defaults", "cond_neural_param_defaults", "pred_neural_param_defaults", "act_neural_param_defaults", "action_param_defaults", "pred_param_defaults",
      "cond_ternary_param_defaults", "cond_dgp_param_defaults", "tree_args_init_constants", "cond_gp_param_defaults", "cond_param_defaults", "param_init", "rand_uniform"])

prop("C22", mods=["snap"], files=["xcsf.c"] + POP_F, funcs=["xcsf_store_pset", "xcsf_retrieve_pset", "cl_init_copy", "clset_kill", "clset_init", "clset_add"])
prop("C23", mods=["stat"], files=["xcsf.c"] + POP_F, funcs=["xcsf_init", "xcsf_free", "clset_pset_init", "cl_init", "cl_rand", "clset_add", "clset_init", "clset_kill"])
prop("C24", mods=["stat"], files=POP_F, funcs=["clset_mfrac", "cl_mfrac", "clset_mean_cond_size", "clset_mean_pred_size", "clset_match", "clset_action", "cl_cond_size", "cl_pred_size"])

NN_F = ["neural_activations.c", "blas.c", "neural_layer.c", "neural_layer_connected.c", "utils.c"]
prop("C25", mods=["nn"], files=NN_F, funcs=["neural_activate", "neural_gradient", "neural_activate_array", "neural_gradient_array", "neural_activation_as_int", "neural_activation_string"])
prop("C26", mods=["nn"], files=NN_F, funcs=["gemm_nn", "gemm_nt", "gemm_tn", "gemm_tt", "blas_gemm", "neural_layer_connected_forward", "neural_layer_connected_backward",
                                            "neural_layer_connected_update", "layer_weight_clamp", "neural_activate_array", "neural_gradient_array"])
prop("C27", mods=["nn", "nn2"], files=NN_F, funcs=["layer_mutate_eta", "layer_mutate_neurons", "layer_mutate_weights", "layer_mutate_functions", "layer_mutate_connectivity", "layer_calc_n_active",
                                                   "layer_init_eta", "layer_weight_rand", "layer_weight_clamp", "layer_add_neurons", "layer_ensure_input_represention",
                                                   "layer_guard_outputs", "layer_guard_weights", "layer_guard_biases"])

KINDS = ["dropout", "noise", "softmax", "maxpool", "avgpool", "upsample"]
NN_L = NN_F + ["neural_layer_%s.c" % k for k in KINDS]
prop("C28", mods=["cond", "nn", "nn2", "nn3", "nn4"], files=NN_L + ["neural_layer_args.c", "sam.c"], funcs=[
    "neural_layer_%s_%s" % (k, f) for k in KINDS for f in ("init", "copy", "free", "resize", "load", "output", "mutate")] + [
    "neural_layer_connected_%s" % f for f in ("init", "copy", "free", "resize", "load", "output", "rand")] + ["layer_args_opt", "layer_set_vptr"])
prop("C29", mods=["nn", "nn2", "nn3"], files=NN_L, funcs=["neural_layer_%s_%s" % (k, f) for k in KINDS for f in ("forward", "backward")] + ["max_pool"])
PROPS["C27"]["mods"] = ["cond", "nn", "nn2", "nn3", "nn4"]
PROPS["C27"]["files"] = NN_L + ["sam.c", "neural_layer_args.c"]
PROPS["C27"]["funcs"].append("neural_layer_connected_mutate")
prop("C30", mods=["cond", "nn", "nn2", "pop", "net"], files=NN_F + ["neural.c"], funcs=["neural_%s" % f for f in (
    "init", "create", "insert", "push", "copy", "free", "rand", "mutate", "resize", "propagate", "learn", "output", "outputs", "size", "load")])

# functions of other parts these depend on, discharged here as well
PROPS["C06"]["files"] = NUM_F + ["sam.c"]
ALSO = {"C04": ["rand_uniform", "rand_uniform_int"], "C06": ["blas_fill", "rand_uniform", "sam_adapt", "sam_init"], "C09": ["clset_add", "rand_uniform"],
        "C10": ["clset_pset_never_match", "clset_pset_roulette", "rand_uniform"], "C11": ["clset_cover"],
        "C12": ["cl_action", "cl_m", "cl_match", "cl_rand", "clset_pset_del"], "C13": ["argmax", "rand_uniform"],
        "C15": ["cl_free", "clset_add", "clset_pset_enforce_limit", "rand_uniform", "rand_uniform_int"], "C16": ["rand_uniform_int"], "C19": ["rand_uniform"],
        "C20": ["clset_add", "clset_init", "action_set", "condition_set", "prediction_set", "pred_nlms_init", "pred_rls_init", "loss_set_func"],
        "C22": ["cl_free"], "C23": ["cl_free"], "C24": ["cl_action", "cl_m", "cl_match", "clset_add", "clset_cover"],
        "C25": ["clamp"], "C26": ["blas_axpy", "blas_scal", "clamp", "neural_activate", "neural_gradient"], "C27": ["clamp", "rand_uniform", "rand_uniform_int", "sam_adapt"],
        "C28": ["layer_calc_n_active", "layer_ensure_input_represention", "layer_init_eta", "layer_weight_rand", "sam_init", "rand_uniform"], "C29": ["rand_uniform"]}
for _p, _fs in ALSO.items():
    PROPS[_p]["funcs"] = PROPS[_p]["funcs"] + [f for f in _fs if f not in PROPS[_p]["funcs"]]

_SUM = ["sum_congruence", "sum_prepend"]
LEMMAS = {
    "C01": ["row_offsets"], "C02": ["row_offsets"], "C03": ["row_offsets"], "C04": ["row_offsets"],
    "C05": _SUM + ["row_offsets", "triangular"], "C06": _SUM + ["row_offsets"], "C07": _SUM,
    "C08": _SUM + ["sum_nonneg", "sum_positive", "accuracy_positive"],
    "C09": _SUM + ["sum_nonneg", "sum_monotone", "deletion_vote_nonneg", "sum_point", "sum_delete"],
    "C10": _SUM + ["sum_nonneg", "sum_filter", "filter_enum", "sum_point", "sum_delete"],
    "C11": _SUM + ["sum_filter", "filter_enum"], "C12": _SUM + ["sum_nonneg", "sum_filter", "filter_enum", "sum_point", "sum_delete"],
    "C13": _SUM + ["row_offsets"], "C14": _SUM + ["sum_two", "sum_filter", "filter_enum"],
    "C15": _SUM + ["sum_nonneg", "sum_positive", "sum_monotone", "sum_point"],
    "C22": _SUM, "C23": _SUM, "C24": _SUM + ["fold_bounds", "fold_max", "fold_least"],
    "C26": ["row_offsets"], "C27": ["row_offsets", "count_update"], "C28": ["row_offsets", "count_update"], "C29": _SUM + ["row_offsets"],
    "C16": ["row_offsets"], "C19": _SUM + ["row_offsets"],
}
for _p in LEMMAS:
    PROPS[_p]["lemmas"] = LEMMAS[_p]
for _p in PROPS:
    PROPS[_p].setdefault("title", TITLES.get(_p, _p))
