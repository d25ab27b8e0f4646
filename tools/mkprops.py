import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,**kw):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],**kw)))
H="src/mssm/src/python/hsmm.py"; L="src/mssm/src/cpp/hsmm/llk.cpp"; D="src/mssm/src/cpp/hsmm/decode.cpp"; R="src/mssm/src/cpp/hsmm/resid.cpp"
p("C01","HSMM log-likelihood equals the sum over all admissible hidden histories",
"For every hidden semi-Markov or hidden multivariate-pattern model and every data set, the reported log-likelihood is the sum over series of the log of the summed probability of all admissible hidden histories: a start state with a drawn duration, the state kept for exactly that duration, then a switch to a different state with a fresh duration (with an auto-correlation correction the value refers to the untransformed signals). Admissible honours the configured boundary conditions (whether the first state starts with the series, whether the last state must end with the series, whether the series must end in the last state), event (bump) states last exactly the width of their template, and time-varying, fixed, per-series and shared parameters apply to the sample and series they belong to. The value does not depend on the number of worker processes, nor on whether a repeated design or response is passed again or omitted.",
["inputs","configurations","histories"],"all numbers of states and signals, series lengths, maximum durations, the boundary flags, duration/emission families, time-(in)variant and fixed/modelled transition and initial probabilities, HMP event templates, autocorrelation corrections, worker counts",
"The existing tests compare one number for a handful of fitted data sets; the sum ranges over exponentially many hidden histories in every flag combination.",
[H,L],[("forward recursion","src/mssm/src/cpp/hsmm/llk.cpp"),("HSMMFamily.llk","src/mssm/src/python/hsmm.py")])
p("C02","Viterbi decoding returns a most probable admissible history",
"For every series the decoded state sequence is realisable by an admissible hidden history under the configured boundary conditions and event widths, and no admissible hidden history of that series has a higher probability. The remaining-duration trace returned with it is consistent with that history.",
["inputs","configurations","histories"],"all models and data sets as in the log-likelihood property, every series of a data set",
"The tests look at one decoded data set; maximality is a statement over all exponentially many competing histories.",
[H,D],[("viterbi","src/mssm/src/cpp/hsmm/decode.cpp"),("HSMMFamily.decode_viterbi",H)])
p("C03","Posterior state sampling draws admissible histories from the exact posterior",
"Every sampled hidden state sequence, with its remaining durations, is an admissible hidden history of its series, and sequences are drawn with their exact posterior probability given the whole series and the model parameters. Sampling is reproducible for a given seed.",
["inputs","configurations","histories"],"all models and data sets, all seeds, any number of samples, every series",
"The tests check a summary of samples of one model; the distribution is over all histories and a bias shows up only in specific flags or data.",
[H,D],[("backward sampling","src/mssm/src/cpp/hsmm/decode.cpp"),("HSMMFamily.sample_posterior_states",H)])
p("C04","HSMM gradient is the derivative of the log-likelihood",
"For every hidden semi-Markov or multivariate-pattern model the reported gradient with respect to every coefficient and every extra parameter equals the derivative of the log-likelihood with respect to it, including coefficients that are shared between states or signals and coefficients of initial, transition and duration models. It is independent of the number of worker processes.",
["inputs","configurations"],"all models, data sets and coefficient vectors; every coefficient; all boundary flags",
"Tests compare gradients for a few configurations; each combination of flags, time variation and sharing takes a different path through the accumulation of derivatives.",
[H,L],[("llkgrad","src/mssm/src/cpp/hsmm/llk.cpp"),("HSMMFamily.gradient",H)])
p("C05","HSMM one-step-ahead predictions and residuals follow the hidden-state filter",
"Forward residuals are the normal quantile of the one-step-ahead predictive distribution function of each sample given the earlier samples of its own series, mixing over all hidden-history prefixes that can still meet the configured end conditions; predictive residuals are the standardised cumulative sums of observation minus one-step-ahead expectation under the same mixture. State-duration residuals are computed from the visited segments of the decoded or sampled histories, each evaluated under the duration distribution of its own state and series at the time the segment starts. Residuals of one series never depend on another series.",
["inputs","configurations","histories"],"all models and data sets, all series, every residual type",
"The tests compare one stored vector for one model; the residual is an expectation over all history prefixes.",
[H,R],[("predictive/forward residuals","src/mssm/src/cpp/hsmm/resid.cpp"),("HSMMFamily.get_resid",H)])
p("C06","Every coefficient multiplies the column its term and name denote",
"For every formula the model matrix consists, term by term in the documented order, of exactly the columns its terms denote: intercepts, linear terms with their factor/continuous interactions, smooths with centering constraints and by-variable/binary/level splits, tensor products, random intercepts and slopes and random smooths. Coefficient names, counts, coefficient-to-term maps and column blocks agree with that matrix one to one, for training and for new data alike.",
["programs","inputs"],"all formulas composable from the term vocabulary, over all data frames with any factor level order, and all new data frames",
"Tests fit a few fixed formulas; alignment must hold for every composition of terms, level order and by-variable.",
["src/mssm/src/python/terms.py","src/mssm/src/python/formula.py","src/mssm/src/python/matrix_solvers.py"],[("build_sparse_matrix_from_formula","src/mssm/src/python/formula.py"),("GammTerm.build_matrix/get_coef_info","src/mssm/src/python/terms.py")])
p("C07","Every penalty acts on exactly the coefficients of its own term",
"Every penalty matrix is symmetric positive semi-definite, its non-zero block covers exactly the coefficients of the term (and factor level) that owns it, its root reproduces it, and its recorded rank is its true rank. Terms or factor levels requested to share a smoothing parameter get exactly one parameter that multiplies the sum of their penalties, all others get one each, and unpenalised coefficients are touched by none.",
["programs","configurations"],"all formulas and lists of formulas composable from penalised and unpenalised terms, all id sharing patterns",
"Tests check a few formulas' end results; misplacement by one block depends on term order, sharing and unpenalised neighbours.",
["src/mssm/src/python/terms.py","src/mssm/src/python/penalties.py","src/mssm/src/python/formula.py"],[("build_penalties","src/mssm/src/python/formula.py"),("embed_in_S_sparse, embed_shared_penalties","src/mssm/src/python/formula.py")])
p("C08","Data frames are encoded row by row without loss, mixing or level confusion",
"After a formula is bound to a data frame, exactly the rows with a missing value in a used variable are excluded, row order is kept, each factor level gets one code and codes decode to the level they came from (also under a user supplied coding), numeric columns keep their values, and series boundaries refer to the same rows after exclusion. Binding never changes the user's data frame, and new data is encoded with the coding of the training data.",
["inputs","programs"],"all data frames (missing-value patterns, level orders, dtypes, series layouts) and all formulas over their columns",
"Tests use complete simulated data frames; loss or confusion depends on where values are missing and which levels occur.",
["src/mssm/src/python/formula.py"],[("Formula.encode_data","src/mssm/src/python/formula.py")])
p("C09","Predictions equal the chosen terms' columns times their coefficients",
"A prediction for new data is, for each row, the sum of the columns of the requested terms times the corresponding coefficients of the requested parameter, and equals the fitted predictor when all terms are requested on the training data. Standard errors and bounds derive from the same columns and the posterior covariance of these coefficients, differences of predictions equal predictions of differences, posterior samples follow that same covariance and are reproducible by seed, and predicting never changes the model.",
["inputs","configurations","programs"],"all fitted models, new data frames, term subsets and parameter indices",
"Tests predict once per model; alignment depends on term subsets, parameter index, unseen rows and level order.",
["src/mssm/models.py"],[("predict, predict_diff, sample_post","src/mssm/models.py")])
p("C10","Reading data from files in chunks gives the same model as reading it at once",
"When a formula is given a list of files instead of a data frame, the encoded data, cross-products, predictor, estimated coefficients and smoothing parameters are those of the concatenated data frame, whatever the number of files, their row counts, the worker count and chunking. Caching intermediate results never makes results of one data set leak into another.",
["configurations","inputs","schedules"],"all ways to split a data set into files, numbers of worker processes and cache states",
"Tests split one data set one way; order of merging, factor coding and cache state vary with the split.",
["src/mssm/src/python/file_loading.py","src/mssm/src/python/formula.py","src/mssm/src/python/gamm_solvers.py"],[("read_cov, read_unique, read_cor_cov_single","src/mssm/src/python/file_loading.py"),("solve_gamm_sparse2","src/mssm/src/python/gamm_solvers.py")])
p("C11","Cox partial likelihood, gradient and Hessian use exactly the true risk sets",
"The proportional-hazards log-likelihood is the sum over events of the linear predictor minus the log of the summed hazard of all subjects still at risk, counting tied events once per event; the gradient and Hessian are its derivatives. Baseline hazard and survival estimates use the same risk sets, and evaluating the model for one data set or coefficient vector is never affected by earlier evaluations.",
["inputs","histories"],"all orderings of events, censorings and ties, all coefficient vectors, all sequences of calls",
"Tests fit one survival data set; ties, censoring patterns and call sequences are not enumerated.",
["src/mssm/src/python/exp_fam.py","src/mssm/src/cpp/hazard.cpp"],[("PropHaz.llk/gradient/hessian","src/mssm/src/python/exp_fam.py")])
p("C12","AR1 residual correction whitens each series on its own",
"With a residual auto-correlation parameter the model is fitted to data in which, within each series, every row is replaced by its decorrelated innovation given the previous retained row of the same series, the first retained row of every series staying as it is. No row is ever combined with a row of another series, and residuals, predictions and the log-likelihood account for the same transformation.",
["inputs","configurations"],"all series layouts, missing-value patterns and auto-correlation values",
"Tests use one series layout without missing values.",
["src/mssm/src/python/utils.py","src/mssm/models.py"],[("computeAr1Chol","src/mssm/src/python/utils.py"),("GAMM.fit","src/mssm/models.py")])
p("C13","A fitted model is a stationary point and its parts agree with each other",
"After a converged fit the coefficients are a stationary point of the penalised log-likelihood at the reported smoothing parameters, and these in turn are a stationary point of the (approximate) restricted likelihood. Fitted values, residuals, log-likelihood, penalty, restricted likelihood, scale estimate, total and term-wise effective degrees of freedom, curvature and coefficient covariance are all functions of those coefficients and smoothing parameters, also if the bound on iterations is reached; coefficients that cannot be identified are left out and reported. This holds for every estimation method and option offered for the model (step control and extension, offsets, restarts, other starting values, coordinates, worker counts), and exact methods agree on the result.",
["configurations","inputs"],"all formulas, response families, links, solver methods, restart/extension options",
"Tests check a few stored numbers for default settings.",
["src/mssm/models.py","src/mssm/src/python/gamm_solvers.py"],[("solve_gamm_sparse, solve_gammlss_sparse, solve_generalSmooth_sparse","src/mssm/src/python/gamm_solvers.py")])
p("C14","Families and links agree with the distribution they name",
"For every response family and link, log-densities, log-likelihoods and cumulative probabilities are those of the named distribution with the stated mean, scale and shape parameters; the variance function, deviance, residuals and every first- and second-order derivative (with respect to mean, parameters, linear predictor, coefficients, scale and shape; expected ones where so used) belong to that same log-density, links, their inverses and derivatives agree with each other, class probabilities and intervals partition one, and random draws follow the distribution reproducibly for a seed. Evaluating a family never changes it, its arguments or later answers, and a family wrapped into a general model gives the same values.",
["inputs","histories"],"all responses, means and parameter values in the support, all links, all orders of evaluating one or several family objects",
"Tests compare a few fitted numbers; densities, derivatives and residuals at arbitrary parameter values are not sampled.",
["src/mssm/src/python/exp_fam.py","src/mssm/src/python/utils.py"],[("Link, Family, ExtendedFamily, GAMLSSFamily, MultiGauss","src/mssm/src/python/exp_fam.py"),("GAMLSSGSMMFamily","src/mssm/src/python/utils.py")])
p("C15","Reported HSMM probabilities and simulated sequences are those of the model",
"The emission, duration, transition and initial probabilities reported for a series are the ones that enter its likelihood (on log and natural scale), each distribution sums to one and belongs to its own series and time-point. Simulated state sequences follow the same chain: initial state, drawn duration, switch to a different state with the transition and duration probabilities of that time-point, and simulated observations follow the emission distribution of the simulated state, reproducibly for a seed and independently of worker count.",
["inputs","configurations","histories"],"all models and designs, all series and seeds, any number of simulated sequences",
"Tests look at one stored simulated sequence per model; the distribution over all sequences in every configuration is not sampled.",
[H],[("HSMMFamily.predict, compute_od_probs, compute_Tpi",H),("_compute_series_probs, _sample_series_emissions",H)])
p("C16","Re-using a model object gives the same result as a fresh one",
"Any sequence of fitting, re-fitting with other options, failing fits, predicting, sampling, testing, comparing and querying a model object leaves it answering exactly like a fresh object on which only the last fit was performed: nothing of an earlier fit (offset, correlation, degrees of freedom, predictors) survives. Read-only operations change nothing, models that share formulas do not influence each other, and data frames and options handed over by the user are not modified.",
["histories"],"all sequences of public operations on one model object",
"Tests use each object once in one order.",
["src/mssm/models.py"],[("GAMM.fit, GAMMLSS.fit, GSMM.fit","src/mssm/models.py")])
p("C17","Model comparison and smoothing-parameter uncertainty",
"The uncertainty correction adds to the conditional coefficient covariance exactly the contribution of smoothing-parameter uncertainty: the covariance of the log smoothing parameters is the (generalised) inverse of the negative curvature of the restricted likelihood at the estimate, or the weighted covariance of the parameters drawn; the contributions follow the change of the coefficients and of the covariance root with the smoothing parameters; sampling-based corrections equal the law of total covariance over the drawn parameters with the stated weights; corrected degrees of freedom belong to the corrected covariance and respect the bias-corrected upper bound; a model without smoothing parameters is left as it is. Comparing two models reports AIC, likelihood-ratio statistic, degrees of freedom and p-value of exactly those two models (unpenalised log-likelihoods, estimated scale and shape parameters counted for each model), is antisymmetric when the models are exchanged, rejects incomparable models, is reproducible for a seed and does not depend on the number of workers.",
["inputs","configurations"],"all pairs of fitted models, all correction strategies and options, any number of workers, all draws",
"Tests check a few stored AIC and edf values; every combination of families, options, worker counts and draws is not sampled.",
["src/mssm/src/python/compare.py","src/mssm/src/python/utils.py","src/mssm/src/cpp/dchol.cpp"],[("compare_CDL","src/mssm/src/python/compare.py"),("correct_VB, estimateVp, compute_Vp_WPS, compute_Vb_corr_WPS, compute_reml_candidate_GAMM, compute_REML_candidate_GSMM","src/mssm/src/python/utils.py")])
p("C18","Posterior sampling",
"The sampler leaves the posterior of the model unchanged: what it samples from is (up to a constant) the log-likelihood of the data at the coefficients, scale and shape parameters (offset and auto-correlation of residuals of the fitted model included) plus the log-density of the smoothness prior at exactly these parameters - the penalty divided by the scale at the fitted smoothing parameters, or, if these are sampled too, with its normalising determinant and the prior the user placed on them - plus, if requested, a vague proper prior on everything no penalty reaches and nothing else; the gradient it uses is the gradient of that. Every transition is reversible with respect to it: trajectories follow the integrator, end where they or any half of them turn back or lose too much energy, every state in the slice has the same chance, momenta belong to the metric. Chains are tuned as configured and no longer than that, continue from block to block without loss, report the log-density of each state, are reproducible for a seed and do not depend on whether they run in parallel; what is returned are only samples after tuning (the second half of a run that is found to have converged), each set of parameters from the same transitions; convergence is judged on the samples that would be returned.",
["inputs","configurations","histories","schedules"],"all fitted models and options, all random choices of the sampler, all block sizes, numbers of chains and stopping points",
"Tests check one sampled mean per model class at best; the stationary distribution, all random choices and all block and stopping configurations cannot be sampled by tests.",
["src/mssm/src/python/mcmc.py","src/mssm/src/cpp/mcmc.cpp","src/mssm/src/python/utils.py"],[("sample_mssm, check_convergence, advance_chain_mssm","src/mssm/src/python/mcmc.py"),("advance_chain, build_tree, check_dynamic_divergence, find_reasonable_epsilon","src/mssm/src/cpp/mcmc.cpp"),("GAMLSSGSMMFamily, MVUniformRhoPrior, CenteredUniformRhoPriors","src/mssm/src/python/utils.py")])
p("C19","Summaries and tests of terms",
"The summary of a fitted model lists, per parameter of the distribution, every coefficient of linear terms by name and every smooth and random term by name and level, each line about exactly the coefficients of that term: its estimated degrees of freedom (the trace of its block of the influence matrix; one per coefficient if it is not penalised), a mark if these fall below the cutoff, and - for linear coefficients and smooth terms that are not random - a test. Linear coefficients are tested with the estimate over its standard error against a t distribution if the scale was estimated and a normal distribution if it is known or fixed, two-sided. Smooth terms are tested with the statistic of Wood (2013) of rank equal to their (by default bias-corrected) degrees of freedom against the weighted chi-square distribution belonging to that rank, relative to the residual degrees of freedom if the scale was estimated; terms with less than one degree of freedom are reported as untested. p-values lie in [0, 1], printed values and significance codes agree with the values returned, all combinations of terms (levels, shared smoothing parameters, impulse responses, un-penalised terms, tensor products, random terms) and all parameters of a model are supported.",
["inputs","configurations"],"all formulas of all parameters of the distribution, all ranks, all families with known, fixed and estimated scale",
"Tests compare the printed summaries of a few models with stored text; all arrangements of terms and ranks cannot be sampled.",
["src/mssm/src/python/utils.py","src/mssm/models.py","src/mssm/src/cpp/davies.cpp"],[("print_parametric_terms, print_smooth_terms, compute_bias_corrected_edf, approx_smooth_p_values","src/mssm/src/python/utils.py"),("daviesQF, qf","src/mssm/src/cpp/davies.cpp")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import subprocess
subprocess.run(["python3-vt","-c","""
import json,jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('/verif/properties.jsonl'): jsonschema.validate(json.loads(l),s)
print('ok')"""])
