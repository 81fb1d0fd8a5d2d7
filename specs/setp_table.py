# setter, object, struct tag, field, smallest, largest, what happens outside
X, E, C, P, A, G = "xcsf", "ea", "cond", "pred", "act", "args"
TABLE = [
    ("param_set_omp_num_threads", X, None, "OMP_NUM_THREADS", 1, 1000, "reject"),
    ("param_set_random_state", X, None, "RANDOM_STATE", None, None, "always"),
    ("param_set_pop_init", X, None, "POP_INIT", None, None, "always"),
    ("param_set_max_trials", X, None, "MAX_TRIALS", 1, None, "reject"),
    ("param_set_perf_trials", X, None, "PERF_TRIALS", 1, None, "reject"),
    ("param_set_pop_size", X, None, "POP_SIZE", 1, None, "reject"),
    ("param_set_stateful", X, None, "STATEFUL", None, None, "always"),
    ("param_set_compaction", X, None, "COMPACTION", None, None, "always"),
    ("param_set_huber_delta", X, None, "HUBER_DELTA", 0, None, "reject"),
    ("param_set_gamma", X, None, "GAMMA", 0, 1, "reject"),
    ("param_set_teletransportation", X, None, "TELETRANSPORTATION", 1, None, "reject"),
    ("param_set_p_explore", X, None, "P_EXPLORE", 0, 1, "reject"),
    ("param_set_alpha", X, None, "ALPHA", 0, 1, "reject"),
    ("param_set_beta", X, None, "BETA", 0, 1, "reject"),
    ("param_set_delta", X, None, "DELTA", 0, 1, "reject"),
    ("param_set_e0", X, None, "E0", 0, None, "reject"),
    ("param_set_init_error", X, None, "INIT_ERROR", 0, None, "reject"),
    ("param_set_init_fitness", X, None, "INIT_FITNESS", 0, None, "reject"),
    ("param_set_nu", X, None, "NU", 0, None, "reject"),
    ("param_set_theta_del", X, None, "THETA_DEL", 0, None, "reject"),
    ("param_set_m_probation", X, None, "M_PROBATION", 0, None, "reject"),
    ("param_set_set_subsumption", X, None, "SET_SUBSUMPTION", None, None, "always"),
    ("param_set_theta_sub", X, None, "THETA_SUB", 0, None, "reject"),
    ("param_set_x_dim", X, None, "x_dim", 1, None, "reject"),
    ("param_set_y_dim", X, None, "y_dim", 1, None, "reject"),
    ("param_set_n_actions", X, None, "n_actions", 1, None, "reject"),
    ("param_set_explore", X, None, "explore", None, None, "always"),
    ("ea_param_set_select_size", E, None, "select_size", 0, 1, "reject"),
    ("ea_param_set_theta", E, None, "theta", 0, None, "reject"),
    ("ea_param_set_p_crossover", E, None, "p_crossover", 0, 1, "reject"),
    ("ea_param_set_lambda", E, None, "lambda", 2, None, "reject"),
    ("ea_param_set_err_reduc", E, None, "err_reduc", 0, 1, "reject"),
    ("ea_param_set_fit_reduc", E, None, "fit_reduc", 0, 1, "reject"),
    ("ea_param_set_subsumption", E, None, "subsumption", None, None, "always"),
    ("ea_param_set_pred_reset", E, None, "pred_reset", None, None, "always"),
    ("cond_param_set_eta", C, None, "eta", 0, 1, "clamp"),
    ("cond_param_set_min", C, None, "min", None, None, "clamp"),
    ("cond_param_set_max", C, None, "max", None, None, "clamp"),
    ("cond_param_set_p_dontcare", C, None, "p_dontcare", 0, 1, "clamp"),
    ("cond_param_set_spread_min", C, None, "spread_min", 0, None, "clamp"),
    ("cond_param_set_bits", C, None, "bits", 1, None, "clamp"),
    ("cond_param_set_type", C, None, "type", 0, None, "clamp"),
    ("pred_param_set_eta", P, None, "eta", 0, 1, "clamp"),
    ("pred_param_set_eta_min", P, None, "eta_min", 0, 1, "clamp"),
    ("pred_param_set_lambda", P, None, "lambda", None, None, "clamp"),
    ("pred_param_set_scale_factor", P, None, "scale_factor", None, None, "clamp"),
    ("pred_param_set_x0", P, None, "x0", None, None, "clamp"),
    ("pred_param_set_evolve_eta", P, None, "evolve_eta", None, None, "clamp"),
    ("pred_param_set_type", P, None, "type", 0, None, "clamp"),
    ("action_param_set_type", A, None, "type", 0, None, "clamp"),
    ("tree_param_set_max", G, "ArgsGPTree", "max", None, None, "clamp"),
    ("tree_param_set_min", G, "ArgsGPTree", "min", None, None, "clamp"),
    ("tree_param_set_n_inputs", G, "ArgsGPTree", "n_inputs", 1, None, "clamp"),
    ("tree_param_set_n_constants", G, "ArgsGPTree", "n_constants", 1, None, "clamp"),
    ("tree_param_set_init_depth", G, "ArgsGPTree", "init_depth", 1, None, "clamp"),
    ("tree_param_set_max_len", G, "ArgsGPTree", "max_len", 1, None, "clamp"),
    ("graph_param_set_max_k", G, "ArgsDGP", "max_k", 1, None, "clamp"),
    ("graph_param_set_max_t", G, "ArgsDGP", "max_t", 1, None, "clamp"),
    ("graph_param_set_n", G, "ArgsDGP", "n", 1, None, "clamp"),
    ("graph_param_set_n_inputs", G, "ArgsDGP", "n_inputs", 1, None, "clamp"),
    ("graph_param_set_evolve_cycles", G, "ArgsDGP", "evolve_cycles", None, None, "clamp"),
]
