CLAIMS = dict(
    C01="Single-output, multi-response and multi-output layouts, NumPy and Torch.",
    C02="Single- and multi-output, unit and arbitrary scale.",
    C03="Coefficients, fast mean, neighborhood update and fast tensors.",
    C04="Pairwise/crosswise/predict/train/batch tensors, 1-D and 2-D features, named indices.",
    C05="Isotropy/Anisotropy, metrics, scalar and vector length scales, call-time overrides.",
    C06="RBF and Matern closed forms, general Bessel form with uninterpreted Gamma/K_nu and its agreement with the closed forms at half-integers.",
    C07="All noise models, single- and multi-output, frame condition on the input covariance.",
    C08="Scalar, vector and tensor hyperparameters, scale, noise and model-level get_opt_params; sampled values from a symbolic generator.",
    C09="Objective built by the optimizers against the public predictions of a model holding the candidate values; all losses; iso-, anisotropic, noise and smoothness parameters.",
    C10="L-BFGS-B and Bayesian optimization (NumPy back end; Torch documents none), iso-/anisotropic length scales, smoothness, noise, symbolic bounds; the external optimizers are assumed only to return a point inside the bounds they are given.",
    C12="Analytic, down-sampled (iteration counts 1-3 unrolled) and fixed scales, estimates and their use in later variances.",
    C11="All losses, single- and multi-output, scaled and unscaled, both array backends.",
    C15="Exact, HNSW and index queries of NN_Wrapper under the library contracts (answers are in-range, row-distinct, distance-sorted); duplicates allowed.",
    C16="batch_sample, batch_filtered, batch_balanced (class counts one to three, unrolled), for any data; randomness is an arbitrary injective selection.",
    C19="HierarchicalParameter with one to three knots (unrolled) over any features; kernels, objective and optimizers using it.",
    C20="Shear kernels (3 in 3 out: both back ends; 2 in 3 out: NumPy, Torch documents none) against machine-differentiated RBF; symmetry, prior, and model mean/variance over the kernel contract.",
    C17="Means, variances, fast coefficients and means, scales and tensors for one to three models (unrolled) with mixed kernels.",
    C18="Single- and multi-model layers; values, in-place parameter updates, and gradient paths (detached values are opaque terms).",
    C13="Relational: both implementations on the same entries, compared shape by shape and entry by entry; all operations with a NumPy and a Torch implementation.",
    C22="Frame conditions: every public computation is run twice under contract; arguments, hyperparameters and results must be unchanged.",
    C21="Every exported operation, every installed backend and both precisions, enumerated; array sizes symbolic.",
)
CLAIMS["C23"] = "Tensors, deformation, kernel, noise and posterior composed on raw data: iso- and anisotropic, homo-, heteroscedastic and no noise, multivariate models (one to three, unrolled)."
CLAIMS["C14"] = "Every process executes the real code in its own copy of the library; process counts enumerated (1-3, chunk sizes 1-6), batch sizes, partitions (empty chunks included) and data symbolic; mpi4py is the contract in pv/ranks.py."
NA = {}
