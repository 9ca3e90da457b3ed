"""Writes properties.jsonl (kept as a script so that the wording has one source)."""
import json, os
B = "src/tenkit/base.py"; CP = "src/tenkit/decomposition/cp.py"; BD = "src/tenkit/decomposition/base_decomposer.py"
P2 = "src/tenkit/decomposition/parafac2.py"; CM = "src/tenkit/decomposition/cmtf.py"; DE = "src/tenkit/decomposition/decompositions.py"
ME = "src/tenkit/metrics.py"; UT = "src/tenkit/utils.py"; LG = "src/tenkit/log.py"; DL = "src/tenkit/decomposition/logging/logger.py"
T = []


W = {"base.": B, "metrics.": ME, "utils.": UT, "KruskalTensor": DE, "EvolvingTensor": DE, "Parafac2Tensor": DE, "ProjectedFactor": DE,
     "BaseDecomposedTensor": DE, "BaseDecomposer": BD, "BaseCP": CP, "CP_ALS": CP, "BaseParafac2": P2, "Parafac2_ALS": P2, "CMTF_ALS": CM,
     "BaseLogger": DL, "LossLogger": DL, "Logger": LG, "HDF5Logger": LG, "Experiment": LG}


def where(n):
    return next(f for k, f in W.items() if n.startswith(k))


def p(id, title, statement, over, text, why, files, mech):
    T.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": m, "where": where(m)} for m in mech]}})


p("C01", "A Kruskal tensor reconstructs the weighted sum of its rank-one terms",
  "For every list of two or more factor matrices with a common number of columns and every weight vector, the tensor a Kruskal tensor constructs has one mode per factor matrix, and its entry at (i1,...,in) is the sum over components of the weight times the product of the corresponding factor entries. "
  "Its reported shape and rank are those of the factors, omitted weights mean weights equal to one, and resetting the weights sets every weight to one and leaves the factors alone.",
  ["inputs"], "all numbers of modes, dimensions, ranks, factor values and weights",
  "The tests reconstruct a few small third-order tensors and mostly with unit weights.",
  [DE, B], ["KruskalTensor.__init__", "KruskalTensor.construct_tensor", "KruskalTensor.reset_weights", "KruskalTensor.shape", "base.khatri_rao", "base.fold"])
p("C02", "Unfolding/folding and flattening are exact inverses with the documented order",
  "For every tensor and every mode, the mode-n unfolding has the mode's indices as rows and the remaining indices, in their original order with the last varying fastest, as columns; folding any matrix of that size back along the same mode and shape is the exact inverse. "
  "Flattening a list of factor matrices stores them one after another row by row, and unflattening with the same rank and sizes returns the same matrices.",
  ["inputs"], "all tensor orders, modes (negative modes included), dimensions and entries",
  "The tests check one shape and positive modes.",
  [B], ["base.unfold", "base.fold", "base.flatten_factors", "base.unflatten_factors"])
p("C03", "Kronecker, Khatri-Rao and MTTKRP products equal their definitions",
  "The Kronecker product and the (optionally mode-skipping) Khatri-Rao product of any number of matrices have the entries given by their definitions, in the order compatible with unfolding. "
  "The matricised tensor times Khatri-Rao product along any mode equals the sum over all other indices of tensor entry times the product of the other factors' entries; none of these operations changes its inputs.",
  ["inputs"], "all matrix counts, orders, modes, dimensions, ranks and entries",
  "The tests compare two or three factors of fixed sizes.",
  [B], ["base.kron", "base.khatri_rao", "base.khatri_rao_binary", "base.matrix_khatri_rao_product", "base._mttkrp3"])
p("C04", "The least-squares kernels return minimisers of the problem they are named after",
  "Solving X A = B returns a least-squares solution (it satisfies the normal equations, also for rank deficient A); the non-negative solver returns for each row of B a non-negative least-squares solution; the orthogonal solvers return a matrix with orthonormal rows (columns for the right-hand version) that minimises the residual among all such matrices when the problem has full rank. "
  "Wrapping a solver with a ridge penalty makes it minimise the squared residual plus the penalty times the squared norm of the solution, and no solver modifies its inputs.",
  ["inputs"], "all matrix sizes and entries, all penalties >= 0",
  "Tests use a handful of well conditioned random systems and compare with other solvers.",
  [B], ["base.rightsolve", "base.non_negative_rightsolve", "base.orthogonal_solve", "base.orthogonal_rightsolve", "base.add_rightsolve_ridge"])
p("C05", "Every CP-ALS factor update solves its subproblem, so the loss never increases",
  "In CP-ALS each update of one mode replaces that factor by a minimiser of the (ridge-regularised) loss over that mode's allowed matrices with the other factors fixed, and changes nothing else. "
  "Hence the loss reported by the model never increases from one update, or one iteration, to the next, for every choice of constraints and penalties whose current factors satisfy the constraints.",
  ["inputs", "histories", "configurations"], "all target tensors, ranks, feasible current factors, modes, ridge penalties and constraint settings, any number of previous updates",
  "The tests fit a few random tensors and look at the final fit only.",
  [CP, B], ["CP_ALS._update_als_factor", "CP_ALS._update_als_factors", "CP_ALS._get_als_lhs", "CP_ALS._get_als_rhs", "CP_ALS._get_rightsolve"])
p("C06", "Reported errors, explained variance and loss always match their definitions",
  "At any time after the start of a fit - during fitting, after it, after refitting on another target, after continuing, after loading or changing the decomposition - a CP or PARAFAC2 model's SSE is the sum of squared differences between its target and its reconstruction. "
  "MSE is SSE divided by the number of data elements, RMSE its square root, explained variance 1 - SSE/||X||^2, and the loss is SSE plus each mode's ridge penalty times that factor's squared norm.",
  ["inputs", "histories"], "all targets, ranks, penalties and all histories of updates, refits, continuations and replaced decompositions",
  "The cached shortcut formula is only ever exercised on a straight single fit.",
  [CP, P2, BD], ["BaseCP.SSE", "BaseCP._inner_prod_X_reconstructed_X", "BaseCP.loss", "BaseParafac2.SSE", "BaseParafac2.MSE", "BaseDecomposer.MSE", "BaseDecomposer.RMSE", "BaseDecomposer.explained_variance", "Parafac2_ALS.loss"])
p("C07", "Requested non-negativity and orthonormality constraints hold in the fitted model",
  "After any fit of at least one iteration, every mode with a non-negativity constraint has only non-negative entries, and every mode with an orthonormality constraint (and full-rank subproblem) has orthonormal columns, with the tensor's fitted weights equal to one. "
  "This holds for CP and for PARAFAC2's A, blueprint and C matrices, for any combination of constraints and ridge penalties and for every initialisation; asking for both constraints on the same mode is rejected with an error.",
  ["inputs", "configurations", "histories"], "all targets, ranks, constraint lists, penalties, initialisations and iteration counts >= 1",
  "The tests constrain one or all modes of small random tensors.",
  [CP, P2, B], ["CP_ALS._get_rightsolve", "CP_ALS._update_als_factor", "CP_ALS._init_fit", "Parafac2_ALS._prepare_cp_decomposer", "Parafac2_ALS._update_parafac2_factors"])
p("C08", "Evolving/PARAFAC2 tensors reconstruct X_k = A diag(c_k) B_k^T, zero padded",
  "For every evolving tensor the k-th slice equals A diag(C[k]) B_k^T; the constructed tensor has these slices as frontal slices, zero padded to the largest width, and irregular tensors warn unless told not to. "
  "For a PARAFAC2 tensor B_k is the k-th projection matrix times the blueprint matrix, the stacked evolving factor lists the B_k in slice order, and the reported shape, slice shapes and number of elements are those of the data described.",
  ["inputs"], "all slice counts, ragged slice widths, ranks and factor values",
  "Tests use a few equally sized slices.",
  [DE], ["EvolvingTensor.construct_slice", "EvolvingTensor.construct_slices", "EvolvingTensor.construct_tensor", "EvolvingTensor.shape", "EvolvingTensor.B_unfolded", "ProjectedFactor.__getitem__", "Parafac2Tensor.__init__"])
p("C09", "PARAFAC2 projections are orthonormal and optimal, and the fit never gets worse",
  "In every PARAFAC2 iteration each slice's projection matrix is replaced by one with orthonormal columns that minimises that slice's residual with A, the blueprint and C fixed, so every fitted model satisfies the PARAFAC2 constraint that B_k^T B_k is the same for all slices. "
  "The inner CP updates act on the projected data and on the model's own matrices, and the PARAFAC2 loss never increases from one iteration to the next.",
  ["inputs", "histories"], "all regular or ragged targets, ranks, feasible current factors and iteration counts (slices whose projection problem has full rank)",
  "Tests sample a few regular random tensors.",
  [P2, B, CP], ["BaseParafac2._update_projection_matrices", "Parafac2_ALS._update_parafac2_factors", "BaseParafac2.projected_X", "Parafac2_ALS._prepare_cp_decomposer", "base.orthogonal_solve"])
p("C10", "Normalisation gives unit columns and preserves what it promises",
  "Normalising a Kruskal tensor leaves every non-zero factor column with unit length and, when the weights are updated, multiplies each weight by the product of the removed column lengths so that the represented tensor is unchanged; with weight updating disabled the weights stay as they were. "
  "The stand-alone normalisation helpers return the normalised matrices with the removed column lengths, so that their product is the input, and leave their inputs unchanged; zero columns stay zero.",
  ["inputs"], "all orders, dimensions, ranks, factor entries and weights (up to the documented tiny stabilising epsilon)",
  "Tests normalise one random decomposition.",
  [DE, UT], ["KruskalTensor.normalize_components", "utils.normalize_factor", "utils.normalize_factors"])
p("C11", "Storing and loading a decomposition is an exact round trip",
  "For every Kruskal, evolving and PARAFAC2 tensor, storing it in an HDF5 file or group and loading it back gives a decomposition of the same class with exactly the same rank, factor matrices, weights, projection matrices and warning setting, hence the same reconstruction. "
  "Loading a group that holds a different kind of decomposition is refused.",
  ["inputs", "histories"], "all numbers of modes, slices (more than ten included), ranks and values",
  "Tests round trip one or two small instances.",
  [DE], ["BaseDecomposedTensor.store", "BaseDecomposedTensor.from_file", "KruskalTensor.store_in_hdf5_group", "KruskalTensor.load_from_hdf5_group", "EvolvingTensor.store_in_hdf5_group", "Parafac2Tensor.store_in_hdf5_group", "BaseDecomposedTensor._check_hdf5_group"])
p("C12", "Checkpoints are written when due, hold the right iterate, and can be resumed",
  "With a checkpoint path and frequency f > 0, exactly the completed iterations whose count is a multiple of f and the last completed iteration are stored (with no positive frequency only the last), each under its own iteration number and holding the decomposition as it was after that iteration; without a path nothing is written. "
  "Loading a checkpoint (a chosen one or, by default, the latest) restores that decomposition, refuses missing ones, and continuing the fit goes on with the next iteration number.",
  ["histories", "configurations"], "all frequencies, iteration budgets, early stops, and sequences of fit, continue and load",
  "The tests store one or two checkpoints and read one back.",
  [BD, CP, P2, UT], ["BaseDecomposer.store_checkpoint", "BaseDecomposer.load_checkpoint", "BaseDecomposer._after_fit_iteration", "BaseDecomposer._store_final_checkpoint", "utils.iter_checkpoints"])
p("C13", "Loggers record every iteration once and the log on disk is the history in order",
  "During a fit every logger receives exactly one value per completed iteration: the value of its metric (loss, SSE, MSE, RMSE or explained variance) right after that iteration, together with the iteration number, in order. "
  "After any sequence of checkpoints the log stored on disk for each kind of logger is the in-memory history up to that checkpoint, without gaps, repetitions or reordering.",
  ["histories", "configurations"], "all iteration counts, checkpoint schedules, lists with at most one logger of each kind, and continued fits",
  "Tests check one logger for one schedule.",
  [DL, BD], ["BaseLogger.log", "BaseLogger.write_to_hdf5_group", "BaseLogger._write_sequence_to_hd5_group", "BaseDecomposer._after_fit_iteration", "LossLogger._log"])
p("C14", "Fitting respects the iteration budget and the stopping rules",
  "A fit performs exactly as many iterations as needed until the relative change of the monitored error falls below the tolerance (for CP also until the relative error is small enough) and never more than the iteration budget; a budget passed to fit or continue overrides the one given at construction, and continuing counts the iterations already made. "
  "A budget that is already used up, or zero, performs no iteration and leaves the decomposition as initialised.",
  ["inputs", "histories", "configurations"], "all budgets, tolerances, error sequences and sequences of fit and continue",
  "Tests check single budgets on easy problems.",
  [BD, CP, P2], ["BaseDecomposer._init_fit", "BaseDecomposer.continue_fit", "CP_ALS._fit", "CP_ALS._update_convergence", "Parafac2_ALS._fit", "Parafac2_ALS._update_convergence"])
p("C15", "The factor match score is the best score over all component pairings",
  "The factor match score equals the maximum, over all ways to pair the components of the first model with distinct components of the second, of the minimum (or mean) over components of the product over modes of absolute cosine similarities, times one minus the relative weight difference when weights are penalised; it lies in [0, 1]. "
  "The returned permutation is one that attains the maximum, the score does not depend on the order, scaling or signs of the components (scaling only without weight penalty), the mode-wise variant maximises each mode separately, and the variant for evolving factors scores the first and last mode.",
  ["inputs"], "all ranks (equal, or the second larger), modes, dimensions and non-zero columns",
  "Tests compare two or three fixed pairs.",
  [ME, UT, DE], ["metrics.factor_match_score", "metrics._factor_match_score", "metrics.separate_mode_factor_match_score", "metrics.factor_match_score_parafac2", "metrics.weight_score", "utils.permute_factors", "KruskalTensor.factor_match_score", "EvolvingTensor.factor_match_score", "Parafac2Tensor.factor_match_score"])
p("C16", "Sign resolution flips signs consistently",
  "Suggested signs of a Kruskal tensor are +1 or -1 for every mode and component, their product over the modes is +1 for every component, so applying them leaves the represented tensor unchanged; each sign agrees with the data-driven score except for at most one mode per component, the one with the smallest score magnitude. "
  "The sign-fixing helpers multiply each column by a sign of +-1 (0 only for an all-zero column) that makes the majority of its entries, or on ties its first non-zero entry, positive, and return these signs.",
  ["inputs"], "all orders, ranks, dimensions, factor entries and data",
  "Tests look at generic random factors, without ties or zero scores.",
  [DE, UT], ["KruskalTensor.get_signs", "KruskalTensor.get_sign_scores", "utils.get_signs", "utils.flip_factors", "utils.prepare_for_comparison", "utils._find_first_nonzero_sign"])
p("C17", "Inputs whose shapes or options do not fit are rejected",
  "Building a Kruskal tensor from factors with different numbers of columns or the wrong number of weights, or starting a CP or PARAFAC2 fit from (or loading) a decomposition whose rank, mode count or dimensions do not match the model and the target, raises an error instead of fitting. "
  "Unknown initialisation methods, unknown reductions of the factor match score, an SVD initialisation with too high rank and a core consistency of a tensor that is not third order raise as well, and matching inputs are accepted.",
  ["inputs", "configurations"], "all combinations of ranks, mode counts, dimensions and option strings",
  "Tests try one or two mismatches each.",
  [DE, CP, P2, ME], ["KruskalTensor.__init__", "BaseCP._check_valid_components", "BaseParafac2._check_valid_components", "BaseCP.init_components", "BaseParafac2.init_components", "BaseCP.init_svd", "metrics.factor_match_score"])
p("C18", "CMTF minimises the joint objective over the shared factors",
  "For a coupled matrix-tensor model the error is the tensor's squared residual plus every coupled matrix's squared residual, MSE divides it by the number of elements of all data, and every update of a shared factor or of an uncoupled matrix factor is a minimiser of the joint (regularised) objective with everything else fixed, for any number of matrices coupled to any modes. "
  "Hence the joint loss never increases during fitting; the final normalisation gives unit-length shared factors and changes neither the reconstructed tensor nor the reconstructed matrices.",
  ["inputs", "histories", "configurations"], "all targets, coupled matrices, coupling modes (repeated ones included), ranks, constraint settings and penalties",
  "Tests couple one or two matrices to distinct modes.",
  [CM, CP], ["CMTF_ALS.SSE", "CMTF_ALS.MSE", "CMTF_ALS._get_als_lhs", "CMTF_ALS._get_als_rhs", "CMTF_ALS._update_uncoupled_matrix_factors", "CMTF_ALS._normalize_components", "CMTF_ALS._absorb_weights", "CMTF_ALS._set_mode_to_coupled_matrix_mapping"])
p("C19", "Reading a model, metrics and fitting never modify the user's data",
  "Constructing tensors and slices, reading properties and errors, storing, computing any metric, sign scores or comparison copies leaves the decomposition and all arguments exactly as they were. "
  "Fitting never modifies the data tensor, slices or coupled matrices it is given.",
  ["inputs", "histories"], "all inputs of every reading and metric function, all fits",
  "Tests hardly ever compare inputs before and after.",
  [DE, ME, UT, B, CP, P2, CM], ["KruskalTensor.construct_tensor", "metrics.core_consistency", "metrics.factor_match_score", "utils.flip_factors", "utils.normalize_factors", "CP_ALS._fit", "Parafac2_ALS._fit"])
p("C20", "The experiment logger and the experiment runner write what they were given",
  "The HDF5 experiment logger stores for every target exactly the sequence of values of that target function over the logged parameters, in order (in single precision), with the file holding all values logged up to the last multiple of the store frequency or explicit save, and continuing an old log appends to it. "
  "An experiment stores its attributes, metadata, parameters (except the one called init), outputs and evaluation results under the given names, without losing those of other experiments in the same file.",
  ["histories", "configurations"], "all store frequencies, numbers of logged values, interleaved explicit saves and continuations",
  "There are no tests of this module.",
  [LG], ["Logger.log", "HDF5Logger.log", "HDF5Logger.save_logs", "HDF5Logger._init_h5_file", "Experiment.run_experiment", "Experiment._init_h5_file"])
p("C21", "Every initialisation yields a valid starting decomposition",
  "Whatever the initialisation method (random, SVD, CP, precomputed), the starting decomposition has the model's rank and the target's dimensions, the matrices that must be orthonormal (PARAFAC2 projections, orthonormally constrained modes, SVD factors) have orthonormal columns and independent storage, and non-negatively constrained modes of a random CP start are non-negative. "
  "Random Kruskal tensors have unit-length columns and unit weights; a precomputed CP or PARAFAC2 start is used with its weights, so that the model initially reconstructs it (unless a mode has to be made orthonormal). "
  "The random factors and synthetic data of the utilities have unit-length factor columns, non-negative ones in the non-negative variants, and the data is the tensor of the returned factors plus the requested multiple of the returned noise.",
  ["inputs", "configurations"], "all targets, ranks (at most every slice width for PARAFAC2), constraint settings and random draws",
  "Tests check shapes of a few random starts.",
  [CP, P2, DE, UT], ["BaseCP.init_random", "BaseCP.init_svd", "CP_ALS.init_random", "CP_ALS._init_fit", "BaseParafac2.init_random", "BaseParafac2.init_svd", "BaseParafac2.init_cp", "KruskalTensor.random_init", "Parafac2Tensor.random_init", "utils.get_pca_loadings", "utils.create_random_factors", "utils.create_random_uniform_factors", "utils.create_data", "utils.create_non_negative_data"])
p("C22", "Diagnostic metrics equal their published formulas",
  "Core consistency is 100 (1 - ||G - T||^2 / F), with T the superdiagonal identity, G the least-squares Tucker core for the model (its weights included) and F the rank (or ||G||^2 when normalised), independent of how component norms are spread over the modes; the PARAFAC2 version is that of the projected data. "
  "Explained fraction, tensor completion score, leverage, degeneracy (the products over modes of cosine similarities of components) and weight score are those of their definitions.",
  ["inputs"], "all dimensions >= rank, factors of full column rank, weights and data",
  "The one core consistency test fails to run on current NumPy; the others have none.",
  [ME, DE], ["metrics.core_consistency", "metrics.core_consistency_parafac2", "metrics.percent_explained", "metrics.tensor_completion_score", "metrics.leverage", "metrics._tucker_congruence", "KruskalTensor.degeneracy", "KruskalTensor.core_consistency"])
p("C23", "Components add up, and conversions between tensor classes keep the tensor",
  "The single-component decompositions of a Kruskal or PARAFAC2 tensor represent tensors that add up to the tensor the full decomposition represents. "
  "Converting a third-order Kruskal tensor to an evolving tensor keeps the represented tensor, permuting components consistently keeps it too, and indexing a decomposition by mode returns the factor of that mode.",
  ["inputs"], "all ranks, components, dimensions, slice widths, weights and factor values",
  "Tests extract one component of one random decomposition.",
  [DE, UT], ["KruskalTensor.get_single_component_decomposition", "Parafac2Tensor.get_single_component_decomposition", "EvolvingTensor.from_kruskaltensor", "EvolvingTensor.from_factor_matrices", "utils.permute_factors_and_weights", "KruskalTensor.__getitem__", "EvolvingTensor.__getitem__"])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for t in T:
            assert len(t["title"]) <= 80, t["title"]
            f.write(json.dumps(t) + "\n")
