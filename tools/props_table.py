prop("C01", "Link functions are exact bijections with exact derivatives",
     "Every built-in link maps any valid mean to its linear predictor and back without changing it, and maps any linear predictor to the mean prescribed by the link's definition. The first and second derivatives each link reports are the true derivatives of the link with respect to the mean.",
     ["inputs", "configurations"], "all links (logit, identity, log, shifted log with any shift), all valid means, all linear predictors, all array sizes",
     TESTS + "link identities must hold for every mean and predictor.",
     [PY + "exp_fam.py"], [("link classes", "exp_fam.py: Logit, Identity, LOG, LOGb")],
     note="All obligations discharged over the reals for arbitrary array length; float saturation of the inverse logit checked on sampled extreme inputs (bounded). Trusted: symbolic evaluator, z3.")
prop("C02", "Exponential-family densities, deviances and variance functions are exact",
     "For the Gaussian, Gamma, inverse Gaussian, Poisson and Binomial families, the per-observation log-density, its sum, the deviance contributions and their sum equal the textbook expressions for the given mean and scale, including observations on the boundary (zero counts, all or no successes). The variance function and its derivative match the distribution, starting values for the mean are valid means, and no call alters its inputs.",
     ["inputs", "configurations"], "all observations, means, scales, numbers of trials (scalar or per observation) and sample sizes",
     TESTS + "no test evaluates these densities at boundary observations or for per-observation trial counts.",
     [PY + "exp_fam.py"], [("family classes", "exp_fam.py: Binomial, Gaussian, Gamma, InvGauss, Poisson"), ("scale estimate", "exp_fam.py: est_scale")],
     note="Proved over the reals for any n. Assumed: scipy.stats log densities (cross-checked numerically each run).")
prop("C03", "Reported scores are the gradients of the family's log-likelihood",
     "For every exponential family with its links, the score returned for the coefficients equals the gradient of that family's log-likelihood with respect to the coefficients, scaled by the scale parameter. Derivatives with respect to the log scale agree with the log-likelihood's first and second derivative and are zero for one-parameter families.",
     ["inputs", "configurations"], "all design matrices, coefficients, responses, scales, sizes",
     TESTS + "a gradient identity quantifies over all designs and coefficients.",
     [PY + "exp_fam.py"], [("score", "exp_fam.py: Family.dllkdcoef"), ("log-scale derivatives", "exp_fam.py: Family.dllkdlscale, d2llkd2lscale")],
     note="Coefficient scores proved for arbitrary n and p; log-scale derivatives are finite differences in the code and are compared at sampled points only (bounded).")
prop("C04", "Scaled-t family: density, deviance and all derivatives are consistent",
     "The scaled-t family's log-density is that of a location-scale t distribution with the documented transformation of its two extra parameters. Its deviance, the deviance's first, second and expected second derivative in the mean, its variance, and the gradient and Hessian of the log-likelihood in the extra parameters are exactly the corresponding derivatives, whether the parameters are passed in or taken from the family.",
     ["inputs", "configurations"], "all responses, means, extra parameters, minimum degrees of freedom, sample sizes",
     TESTS + "derivative identities quantify over all inputs.",
     [PY + "exp_fam.py"], [("scaled t", "exp_fam.py: ScaledT")],
     note="Proved over the reals for any n; the expectation in the expected curvature is checked by quadrature at sampled points (bounded).")
prop("C05", "Location-scale and multinomial families: likelihoods and derivatives agree",
     "For the Gaussian and Gamma location-scale families and the multinomial family with any number of classes, log-likelihood, cumulative probability and residuals equal the textbook values, and the reported partial derivatives are the exact (or, where documented, expected) derivatives of the log-likelihood. Multinomial class probabilities are a probability distribution consistent with the log-probabilities, residuals and random draws.",
     ["inputs", "configurations"], "all responses, parameter values, sample sizes, numbers of classes (proved for up to five classes)",
     TESTS + "derivative identities quantify over all inputs.",
     [PY + "exp_fam.py"], [("GAMLSS families", "exp_fam.py: GAUMLSS, GAMMALS, MULNOMLSS")],
     note="Proved over the reals for any n; multinomial for 2 to 5 classes. Random draws and randomised residuals are bounded checks.")
prop("C06", "Chain rule and working models carry family derivatives to coefficients exactly",
     "The score and Hessian assembled for the coefficients of a multi-parameter model are the exact derivatives of the log-likelihood, for any links, any number of blocks and any column pattern of the design matrices. Working responses and weights of iteratively reweighted fits equal their Fisher or Newton definition for every family, observations without a usable weight are excluded and nothing else changes, and families wrapped for the general solver report the same log-likelihood, gradient, Hessian and residuals.",
     ["inputs", "configurations"], "all derivative values, designs, links, weights, sizes; blocks with empty or zero columns; rows with unusable weights",
     TESTS + "chain-rule identities quantify over all designs, links and coefficient blocks.",
     [PY + "gamm_solvers.py", PY + "utils.py"], [("chain rule", "gamm_solvers.py: deriv_transform_mu_eta, deriv_transform_eta_beta"), ("working model", "gamm_solvers.py: PIRLS_pdat_weights, PIRLS_newton_weights, update_PIRLS"), ("wrapped families", "utils.py: GAMLSSGSMMFamily")],
     note="Proved for any n; one to three predictor blocks with symbolic columns; column patterns with zero columns, dropped rows and the wrapped Hessian are bounded checks.")
prop("C07", "Multivariate Gaussian family: likelihood, gradient, Hessian and residuals agree",
     "For responses of any dimension, the multivariate Gaussian family's log-likelihood (up to its additive constant) is the Gaussian one for the precision matrix R'R built from its Cholesky parameters. Its gradient and Hessian columns are the exact derivatives in all coefficients and Cholesky parameters, including when dimensions share one design matrix. Residuals are the whitened residuals, and draws have the implied mean and covariance.",
     ["inputs", "configurations"], "all designs, responses, coefficients, covariance parameters, dimensions (proved for one to three)",
     TESTS + "derivative identities quantify over all covariances and designs.",
     [PY + "exp_fam.py"], [("multivariate Gaussian", "exp_fam.py: MultiGauss")],
     note="Proved over the reals for any n and 1-3 dimensions; four dimensions and random draws bounded.")
prop("C08", "Proportional-hazards family: Breslow likelihood and predictions are exact",
     "The proportional-hazards family's log-likelihood is the Breslow partial likelihood for any pattern of tied times and censoring, and its gradient and Hessian are that likelihood's exact derivatives. Baseline hazard, survival predictions, their standard errors and the residuals equal their textbook expressions for the coefficients and data they are asked about, whatever was computed before.",
     ["inputs", "histories"], "all coefficients, designs, event indicators; any number of distinct times, ties and calling order (proved for fixed layouts of ties, all layouts sampled)",
     TESTS + "no stable test touches survival models; derivative identities quantify over all data.",
     [PY + "exp_fam.py", CPP + "hazard.cpp"], [("proportional hazards", "exp_fam.py: PropHaz"), ("compiled sums", "hazard.cpp: llk2, grad2, hessian")],
     note="Python part proved against the contract of the compiled sums for fixed tie layouts and all values; the compiled sums and other layouts are bounded checks.")
prop("C09", "B-spline and tensor-product bases evaluate the documented basis functions",
     "For any degree, number of basis functions, range and covariate values inside the range, the B-spline basis equals the Cox-de Boor basis on the documented knots, is non-negative, sums to one and is local. Tensor-product rows are the products of the marginal rows in the documented order, and the impulse-response basis is the convolution of events with the basis at the right samples.",
     ["inputs", "configurations"], "all covariate values in the range, degrees, numbers of basis functions, ranges (proved per knot interval for small degrees and sizes)",
     TESTS + "a basis identity must hold for every covariate value and configuration.",
     [PY + "smooths.py"], [("basis", "smooths.py: B_spline_basis, bbase, tpower"), ("tensor product", "smooths.py: TP_basis_calc"), ("impulse response", "smooths.py: convolve_event")],
     note="Proved for every covariate value within each knot interval for listed degree/size combinations and for every row of a tensor product; further sizes and the impulse-response basis are bounded checks.")
prop("C10", "Penalties are the documented quadratic forms on the right coefficients",
     "For any smooth, factor-smooth, impulse-response or random term - any difference order, number of basis functions, identifiability constraint, re-parameterisation, tensor product, by-factor, shared id, null-space penalty or dropped coefficients - the penalties built for the term are exactly the documented quadratic forms of its coefficients, placed at that term's coefficients and nowhere else. Every stored root reproduces its penalty, the reported rank is the penalty's rank, and the constraint and re-parameterisation matrices have their defining properties (sum to zero over the data, orthogonality).",
     ["inputs", "configurations"], "all constraint matrices, penalty entries and basis sizes; all term configurations (sampled over the whole term grammar)",
     TESTS + "penalties of most term configurations (by with id, null penalties, dropped coefficients, constraint types) are never compared with a reference.",
     [PY + "penalties.py", PY + "terms.py", PY + "formula.py"], [("marginal penalties", "penalties.py: DifferencePenalty, IdentityPenalty, TP_pen"), ("embedding", "penalties.py: embed_in_S_sparse, embed_in_Sj_sparse, adjust_pen_drop"), ("term penalties", "terms.py: build_penalty of f, fs, irf, ri, rs; absorb_repara; formula.py: build_penalties, __absorb_constraints")],
     note="Difference penalties proved for any basis size (orders 1-3, no/QR/DROP constraint with arbitrary constraint matrix); tensor, identity, embedding and dropping proved for all entries at fixed small sizes; whole-term construction is a bounded check against an independent construction.")
prop("C11", "A model's total penalty is the lambda-weighted sum of its term penalties",
     "However penalties are spread over several formulas, share smoothing parameters through ids, overlap on the same coefficients or leave extra coefficients unpenalized, embedding, merging, splitting and sorting never lose, duplicate or move one. The total penalty is the sum of lambda times each penalty at its own coefficients, its root reproduces it, the pseudo-inverse is that of each overlapping block, and the rank shortcut is chosen exactly for smoothing parameters whose penalties do not overlap with others.",
     ["inputs", "configurations", "histories"], "all penalty entries and smoothing parameters; arrangements of formulas, ids, overlaps (enumerated layouts proved, random ones sampled)",
     TESTS + "merging and splitting of shared penalties has no test that checks where each penalty ends up.",
     [PY + "penalties.py", PY + "gamm_solvers.py"], [("shared penalties", "penalties.py: combine_shared_penalties, split_shared_penalties, sort_penalties, embed_shared_penalties"), ("total penalty", "gamm_solvers.py: compute_S_emb_pinv_det")],
     note="Proved for all entries and smoothing parameters over listed layouts of sizes, ids and formulas; overlapping blocks (pseudo-inverse, root) are bounded checks.")
prop("C12", "Design matrices, names and indices describe the formula that was written",
     "For any formula, data frame, missing values and codebook, the model matrix holds for every kept row exactly the documented columns of each term in the documented order, restricted requests zero the other terms, and encoding new data yields the same columns evaluated at the new values. Coefficient names, counts and index ranges match those columns, rows with missing values are the only ones dropped, and coefficients removed because of nested smooths leave the column space unchanged and identifiable.",
     ["inputs", "configurations"], "all covariate and basis values; all formulas and data layouts (single terms proved, whole formulas sampled)",
     TESTS + "a column permutation or mislabelled level survives any test that does not compare with an independent construction.",
     [PY + "formula.py", PY + "terms.py"], [("single terms", "terms.py: build_matrix and get_coef_info of i, l, f, fs, irf, ri, rs"), ("formula", "formula.py: Formula, encode_data, build_sparse_matrix_from_formula, build_model_matrix, __fix_nested")],
     note="Matrices of linear, random and smooth terms proved for every covariate/basis/constraint value over listed factor patterns and sizes; whole formulas, new data, missing values, codebooks and nesting are bounded checks.")
prop("C13", "Linear solves, factorisations and coefficient steps are exact",
     "Every factorisation and solve the package performs satisfies its defining equation for any matrix it accepts (Cholesky, pivoted QR, triangular, penalized least squares, traces), reports failure or the true rank otherwise, and leaves its inputs alone. The penalized least-squares update and the Newton and gradient steps are the exact solutions and steps for the penalized criterion, with unidentifiable coefficients set to zero and reported; step halving never returns coefficients with a worse penalized log-likelihood, and everything it returns belongs to the returned coefficients.",
     ["inputs", "configurations"], "all Hessians, gradients, penalties, responses (proved at small sizes for all entries and permutations listed); all ranks; any number of failed factorisations or halvings listed",
     TESTS + "permutations, rank deficiency and failed factorisations only occur for particular matrices.",
     [PY + "matrix_solvers.py", PY + "gamm_solvers.py", CPP + "eigen_solvers.cpp"], [("solvers", "eigen_solvers.cpp, matrix_solvers.py: cpp_*, compute_B, compute_Linv, est_condition"), ("steps", "gamm_solvers.py: newton_coef_smooth, gd_coef_smooth, update_coef, correct_coef_step_gammlss, identify_drop, drop_terms_X")],
     note="Newton step, gradient step, step control and least-squares update proved for every entry at 1-3 coefficients against the solvers' contracts; the compiled solvers themselves are bounded checks of those contracts.")
prop("C14", "AR(1) whitening and accumulation from files reproduce the plain computation",
     "For any autocorrelation, series layout and missing values, the whitening factor computed for AR(1) residuals turns the residual covariance (correlation rho to the power of the lag within a series of kept observations, zero between series) into the identity, its log-determinant is the exact one, and whitening is applied to the working model the same way with dropped observations. Cross products and predictors accumulated piecewise, from any split of the data into files, with or without caching and for any number of workers, equal those of the whole model matrix.",
     ["inputs", "configurations"], "all rho in (-1,1), working values and weights over listed series layouts; random formulas, file splits, worker counts",
     TESTS + "series starts, missing values and file splits only occur for particular data.",
     [PY + "utils.py", PY + "gamm_solvers.py", PY + "file_loading.py"], [("AR(1) factor", "utils.py: computeAr1Chol"), ("working model", "gamm_solvers.py: update_PIRLS with an AR(1) factor"), ("accumulation", "gamm_solvers.py: keep_XTX, read_XTX, keep_eta, read_eta; file_loading.py")],
     note="AR(1) factor and whitened working model proved for all rho/values over listed layouts; whitening with dropped rows, file reading and multi-process accumulation are bounded checks.")
prop("C15", "Smoothing parameters, effective df and scale follow the penalized criterion",
     "For any penalties, shared ids, traces and data, the generalized Fellner-Schall update computed for each smoothing parameter is the documented one: it is zero exactly where the gradient of the penalized (restricted) likelihood criterion is zero, moves in that gradient's direction and keeps parameters inside their limits; step extension and control only accept or undo steps as documented, and coefficients, factors and penalties returned belong to the accepted smoothing parameters, in the original parameterisation. Effective degrees of freedom, total and per term, are the documented traces, and the scale estimate is the documented ratio, also with dropped coefficients; halved coefficient steps never return a higher penalized deviance.",
     ["inputs", "configurations", "histories"], "all traces, penalties, smoothing parameters, likelihoods (proved at small sizes for all values); acceptance/rejection histories of up to 2-3 attempts; listed layouts of ids",
     TESTS + "rejected and extended steps, dropped coefficients and shared ids are specific to particular data.",
     [PY + "gamm_solvers.py"], [("criterion", "gamm_solvers.py: grad_lambda, compute_lgdetD_bsb, step_fellner_schall_sparse"), ("step control", "gamm_solvers.py: extend_lambda_step, undo_extension_lambda_step, correct_lambda_step, correct_lambda_step_gamlss, correct_lambda_step_gen_smooth, correct_coef_step"), ("degrees of freedom and scale", "gamm_solvers.py: calculate_edf, calculate_term_edf, update_scale_edf, update_coef_and_scale, init_step_gam, updateTheta")],
     note="Proved for all values at small sizes; correct_lambda_step* are checked against the contracts of the functions they call, for histories of at most 2-3 attempts per step; the inner optimisation of extra family parameters (updateTheta) is a bounded check.")
prop("C16", "Quasi-Newton Hessian approximations satisfy the update formulas they implement",
     "For any recorded steps and gradient differences, the approximate (penalized) Hessian and inverse built from them - explicit, as factors, or as an operator, full or structured with a block obtained by differencing - are the same symmetric matrix, equal to the recursive symmetric rank-one updates of the scaled initial matrix, projected to be positive (semi-)definite only where documented. Roots, inverses, traces and degrees of freedom derived from the approximation belong to that matrix. Updates are recorded, skipped and discarded as documented, and optimised coefficients have no worse penalized log-likelihood than the starting values, with returned factors describing the returned coefficients.",
     ["inputs", "configurations", "histories"], "all step and gradient-difference vectors, scalings and damping terms (proved at small sizes for all entries); sampled sizes up to 7 coefficients and 5 updates",
     TESTS + "rejected updates, negative curvature and structured approximations need particular update histories.",
     [PY + "compact_rep.py", PY + "gamm_solvers.py"], [("compact representations", "compact_rep.py: computeHSR1, computeVSR1, compute_omega, computeSH, computeSVPS"), ("collection of updates", "gamm_solvers.py: update_ys_qefs, sample_ys_qefs, sampleHcoef, test_SR1"), ("use", "gamm_solvers.py: getImplicitV, getExplicitnH, getCholnH, computetrVS3, makepdd_fd2llk, update_coef_gen_smooth")],
     note="Unprojected compact representations, scalings, structured sums, traces and the collection of updates proved for all entries at up to 2 updates and 3-4 coefficients; everything involving an eigen-decomposition or L-BFGS is a bounded check.")
prop("C17", "Hidden semi-Markov and multi-event models compute the model's probabilities",
     "For any number of states, events, signals and series, any duration, transition and observation model, start and end constraint, with shared terms or time-varying covariates, the log-likelihood of a hidden semi-Markov or multi-event model is the log of the sum over all admissible state sequences of their probability, its gradient is the derivative of that log-likelihood, the decoded sequence is the most probable one, posterior samples are drawn from the posterior over sequences, and residuals are those of the model's predictive distributions. Predictions follow the model's probabilities for the series they are asked about, also when several series have different lengths, transition probabilities or initial probabilities.",
     ["inputs", "configurations"], "all probabilities and parameters at listed numbers of states, durations and time points (proved); sampled whole models compared with enumeration of all state sequences",
     TESTS + "the stable tests fix a few numbers for single small models; the sum over state sequences is never compared with an enumeration.",
     [PY + "hsmm.py", CPP + "hsmm"], [("recursions", "cpp/hsmm: llk, llkgrad, llkFTPgrad, viterbi, sample_backwards, forward_resid, predictive_resid"), ("densities", "hsmm.py: compute_od_probs, _compute_series_probs"), ("family", "hsmm.py: HSMMFamily llk, gradient, decode, sample, get_resid, predict")],
     note="Compiled recursions proved for all probabilities at listed sizes by interpreting their C++ source symbolically; whole-family likelihood, gradient, decoding, residuals and prediction are bounded checks against enumeration. Two deviations pinned by the repository's own stable tests are recorded as known findings.")
prop("C18", "Predictions, intervals, posterior draws and reported quantities are the fit's",
     "For any fitted model, parameter, subset of terms and new data, the prediction is the matrix of the requested terms times the parameter's own coefficients, its pointwise interval is the documented quantile times the standard error under the posterior covariance, whole-function intervals cover simultaneously the requested share of posterior functions, and differences and posterior draws have the documented mean and covariance, refused before fitting or for impossible requests. Coefficients, responses, design matrices, (penalized) log-likelihoods and residuals a model reports belong to its most recent fit - also when that fit stopped early or followed a fit with other options - and to the observations that were kept.",
     ["inputs", "configurations", "histories"], "all coefficients, covariance factors, matrices and levels (proved at small sizes); sampled whole fits and refits",
     TESTS + "subsets of terms, later parameters, all-zero rows and repeated fits are not sampled by the tests.",
     ["src/mssm/models.py", PY + "utils.py"], [("predictions", "models.py: predict, predict_diff, sample_post; utils.py: sample_MVN, adjust_CI"), ("getters", "models.py: get_pars, get_ys, get_mmat, get_llk, get_resid"), ("fits", "gamm_solvers.py: what solve_gamm_sparse returns; models.py: GAMM.fit, GAMMLSS.fit")],
     note="Predictions, intervals, draws and getters proved for all values at small sizes over listed parameters and layouts; simultaneous intervals, whole fits and refits are bounded checks.")
prop("C19", "Restricted likelihood and re-parameterisation describe the fitted model",
     "For any penalties, smoothing parameters, coefficients and data, the restricted (marginal) likelihood reported for a model or for candidate smoothing parameters is the Laplace approximation: penalized log-likelihood plus half the log generalized determinant of the penalty minus half the log determinant of the penalized Hessian plus half the number of unpenalized directions times log 2 pi, with scale, offset and every predictor counted once. The stabilising re-parameterisation is orthogonal and leaves the penalty, its generalized determinant and that likelihood unchanged, and the natural parameterisation is the documented change of basis: same fit, diagonal penalty, invertible.",
     ["inputs", "configurations"], "all penalties, smoothing parameters and design entries (proved at small sizes); random penalty systems and fits (sampled)",
     TESTS + "the value of the restricted likelihood is never compared with its definition.",
     [PY + "repara.py", PY + "utils.py", PY + "gamm_solvers.py"], [("criterion", "utils.py: REML, compute_reml_candidate_GAMM, compute_REML_candidate_GSMM; models.py: get_reml"), ("re-parameterisation", "repara.py: reparam (all options), reparam_model")],
     note="REML and the natural parameterisation proved for every entry and smoothing parameter at small sizes against the eigen-decomposition's contract; the similarity-transform re-parameterisation, candidate criteria and fitted models are bounded checks against direct determinants.")
prop("C20", "Smoothing-parameter uncertainty and corrected posterior are as documented",
     "For any fitted model, the reported covariance of the log smoothing parameters is the (generalized) inverse of the Hessian of the negative restricted likelihood criterion, every penalty - repeated, overlapping or sharing a parameter - counted once, or the importance-weighted covariance of posterior samples under the given prior. The corrected posterior covariance of the coefficients is the conditional one plus the documented first and second order terms (or the law of total variance over the samples), with degrees of freedom that are the traces of that matrix with the model's Hessian inside their documented bounds. Neither depends on the number of processes, on an offset beyond its effect on the fit, or changes the model.",
     ["inputs", "configurations"], "all covariances, Hessians, samples, weights, priors (proved at small sizes for all values); random penalty systems and fits (sampled)",
     TESTS + "repeated and overlapping penalties, offsets and serial evaluation are not sampled by the tests.",
     [PY + "utils.py", CPP + "dchol.cpp"], [("parameter covariance", "utils.py: compute_Vp_WPS, estimateVp, updateVp, MVUniformRhoPrior, CenteredUniformRhoPriors"), ("coefficient covariance", "utils.py: compute_Vb_corr_WPS, correct_VB; dchol.cpp")],
     note="Proved for all values at 1-2 coefficients (C++ derivatives of the Cholesky factor 1-4) and 1-2 smoothing parameters; lemma contracts tie the implemented Hessian to the second derivative of the criterion, treating the likelihood's Hessian as independent of the smoothing parameters (documented approximation). Whole fits and process pools are bounded checks.")
prop("C21", "Tests, p-values, summaries and comparisons use the fitted model's own quantities",
     "For any fitted model, the p-value and statistic of a smooth term are those of the documented test: the coefficients, covariance and (bias corrected) degrees of freedom of that very term, both alternatives averaged, referred to the documented distribution. Printed summaries attribute to every term its own degrees of freedom, statistic and p-value, and every parametric coefficient its own test. Comparing two fits returns the documented (corrected) information criteria, statistic, degrees of freedom and p-value of exactly those two models.",
     ["inputs", "configurations"], "all coefficients, covariances, degrees of freedom, likelihoods and option combinations (proved at small sizes for all values); random fits and weights (sampled)",
     TESTS + "un-penalized, time-course, by- and factor smooths, multi-parameter models and the extremes of the degrees of freedom are not sampled by the tests.",
     [PY + "utils.py", PY + "compare.py", CPP + "davies.cpp"], [("p-values", "utils.py: approx_smooth_p_values, compute_bias_corrected_edf, _collect_term_edf; davies.cpp"), ("summaries", "utils.py: print_smooth_terms, print_parametric_terms"), ("comparison", "compare.py: compare_CDL")],
     note="Proved for all values at 2-3 coefficients per smooth. The QR and eigen decompositions and the reference distributions are callee contracts; davies.cpp is compared with an independent inversion of the characteristic function (bounded), printed summaries with direct formulas on random fits (bounded). The residual degrees of freedom are cast to an integer for the mixture distribution. Comparisons assume that the two models differ in their degrees of freedom.")
prop("C22", "Fits end at the documented optimum and depend on the data and the model only",
     "For any data, formula and fitting options, a fit that reports convergence is a stationary point of the penalized log-likelihood in its coefficients and of the documented criterion in every smoothing parameter, and everything it returns - coefficients, predictors, weights, covariance, degrees of freedom, scale, penalty, smoothing parameters - belongs to one and the same last update, also if it stopped without convergence. The fit does not depend on the order of observations or terms, on missing responses, on how often it is repeated or on whether data are read from files, moves with shifts and rescalings of the response and with offsets as the model says, and leaves out unidentifiable coefficients without changing the fit. An ill-conditioned system is reported by a warning.",
     ["inputs", "configurations", "histories"], "all values and all outcomes of the parts at up to 3 outer iterations (proved); random data sets, formulas and options (sampled)",
     TESTS + "stationarity and invariance are never tested; early stops, single inner steps and dropped coefficients need particular data.",
     [PY + "gamm_solvers.py", "src/mssm/models.py"], [("outer iterations", "gamm_solvers.py: solve_gamm_sparse, solve_gammlss_sparse, solve_generalSmooth_sparse, solve_gamm_sparse2"), ("models", "models.py: GAMM.fit, GAMMLSS.fit, GSMM.fit")],
     note="The three outer iterations are proved against the contracts of the functions they call for up to 3 iterations; stationarity and invariance of whole fits, which need convergence of compiled numerical code, are bounded checks on random data sets. Expected instead of observed second derivatives are documented for some families, and the quasi-Newton method stops at a documented relative change, so its score is not checked.")
