"""Property texts; meta/gen.py turns them into properties.jsonl and MANIFEST.json."""
S = "spreg/"
# id, title, statement, over, quantifier text, why tests can't, files, mechanisms
P = []


def p(i, title, st, q, why, files, mech, over=("inputs",), obs=None):
    P.append(dict(id=i, title=title, statement=st, quantifier=dict(over=list(over), text=q), why_tests_cant=why,
                  anchors=dict(files=[S + f for f in files],
                               mechanism=[dict(name=a, where=S + b) for a, b in mech],
                               observe_at=obs or ["public attributes of the fitted model objects and their output tables"],
                               hook_needed=None)))


ONE = "The tests compare a handful of numbers on one bundled dataset to stored values; any formula that agrees there passes. "
p("P01", "OLS coefficients, variance, fit and inference are the least squares ones",
  "For every response vector and full-rank design, OLS returns the solution of the normal equations, residuals orthogonal to the regressors, s2(X'X)^-1 as variance with the requested divisor, and R2, adjusted R2, F, log-likelihood, AIC, Schwarz, standard errors, t statistics and p-values that follow from those by their textbook definitions. The output table repeats the same numbers.",
  "all real responses, designs in the stated family, both variance divisors", ONE + "All-responses is out of reach of samples.",
  ["ols.py", "utils.py", "diagnostics.py", "output.py"],
  [("least squares kernel", "ols.py:BaseOLS"), ("cached residual statistics", "utils.py:RegressionPropsVM"), ("fit measures", "diagnostics.py:f_stat,t_stat,r2,log_likelihood,akaike,schwarz")])
p("P02", "White and HAC standard errors are the stated sandwich of the right residuals",
  "With a robust option, coefficients and error variance are unchanged and the reported variance is bread*meat*bread, with squared residuals (White, degrees-of-freedom scaled only when that divisor is requested) or the kernel-weighted cross products (HAC) of the structural residuals, for least squares and instrumental estimators alike.",
  "all responses, kernel weights in (0,1) including asymmetric kernels, both divisors", ONE + "Small-sample factor, transposition and residual choice errors hide at one data point or a symmetric kernel.",
  ["robust.py", "ols.py", "twosls.py", "twosls_sp.py"], [("sandwich", "robust.py:robust_vm")])
p("P03", "Classical diagnostics equal their definitions and degrees of freedom",
  "Jarque-Bera, Breusch-Pagan, Koenker-Bassett, White, variance inflation, condition index, likelihood ratio and Durbin-Wu-Hausman statistics equal their defining auxiliary regressions or moments of the residuals for every sample, with the degrees of freedom and tail that belong to them.",
  "all responses; designs with and without duplicated squares", ONE, ["diagnostics.py", "output.py"],
  [("auxiliary regressions", "diagnostics.py:breusch_pagan,koenker_bassett,white,vif"), ("endogeneity test", "diagnostics.py:dwh")])
p("P04", "Lagrange multiplier and Moran diagnostics equal their quadratic forms",
  "For every response and weights matrix, the LM and robust LM tests for lag, error, WX, SARMA and spatial Durbin, and Moran's I with its expectation and variance, equal their defining quadratic forms in the least squares residuals, respect their known additivity relations, and carry the correct degrees of freedom and p-values.",
  "all responses, symmetric and asymmetric weights, with symbolic weight entries", ONE + "Row-standardised contiguity weights of one map leave symmetric-only formulas undetected.",
  ["diagnostics_sp.py", "output.py"], [("LM tests", "diagnostics_sp.py:lmErr,lmLag,rlmErr,rlmLag,lmSarma"), ("Moran", "diagnostics_sp.py:MoranRes,get_vI"), ("Durbin tests", "diagnostics_sp.py:lm_wx,lm_spdurbin,rlm_wx,rlm_durlag")])
p("P05", "Two stage least squares solves the projected normal equations",
  "For every response and admissible instrument set, 2SLS coefficients solve the projected normal equations, residuals use the actual endogenous regressors, the variance is s2 times the inverse projected cross product, and exact identification or instruments equal to regressors reduce it to indirect least squares or OLS. Pseudo R2 and z statistics follow from those.",
  "all responses, endogenous regressors on symbolic lines, over- and exactly identified", ONE, ["twosls.py", "diagnostics_tsls.py", "diagnostics.py"],
  [("2SLS kernel", "twosls.py:BaseTSLS"), ("pseudo R2", "diagnostics_tsls.py:pr2_aspatial,pr2_spatial")])
p("P06", "The spatial lag IV estimator uses the documented instruments and residual tests",
  "GM_Lag equals 2SLS with Wy as endogenous variable and instruments WX..W^pX (and WQ when requested, after any WX regressors), rho is the Wy coefficient, reduced-form predictions solve (I-rho W)p=xb inside the unit bound and are refused or flagged outside, and the Anselin-Kelejian and common factor tests equal their definitions.",
  "all responses on symbolic lines, asymmetric and symbolic weights, lag orders 1..3, WX orders 0..2, both instrument options", ONE + "Few option combinations are run.",
  ["twosls_sp.py", "utils.py", "diagnostics_sp.py"], [("instrument construction", "utils.py:set_endog,get_lags,get_lags_split"), ("reduced form", "utils.py:sp_att"), ("AK test", "diagnostics_sp.py:AKtest"), ("common factor", "diagnostics_sp.py:comfac_test")],
  over=("inputs", "configurations"))
p("P07", "Spatially lagged regressors are appended in documented order and named so",
  "Every estimator offering WX terms regresses on the same matrix: the originals followed by W, W^2, .. of the selected columns; names, variable types and coefficients stay aligned for every lag order and selection mask.",
  "lag orders 1..3, all selection masks, symbolic weights", "Tests touch one mask and mostly order one.", ["utils.py", "user_output.py", "ols.py", "twosls.py", "error_sp.py", "ml_lag.py"],
  [("lag builder", "user_output.py:flex_wx"), ("names", "user_output.py:set_name_spatial_lags")], over=("inputs", "configurations"))
p("P08", "ML lag maximises the exact spatial lag likelihood",
  "For every data set and every point of the search interval, the function handed to the optimiser is the negative concentrated log-likelihood of the spatial lag model, the same for dense, eigenvalue and sparse determinant methods; given any maximiser the coefficients, variance, log-likelihood, information matrix and predictions are those implied by it.",
  "all responses on lines, all rho in the interval, symmetric and asymmetric weights, all three methods", "Tests only see the final optimum on one map; an objective wrong away from it, or one method wrong on asymmetric weights, passes.",
  ["ml_lag.py"], [("concentrated likelihoods", "ml_lag.py:lag_c_loglik,lag_c_loglik_ord,lag_c_loglik_sp"), ("post-estimation", "ml_lag.py:BaseML_Lag")], over=("inputs", "configurations"))
p("P09", "ML error maximises the exact spatial error likelihood",
  "For every data set and lambda, the objective is the negative concentrated likelihood of the spatial error model whichever determinant method is chosen; given any maximiser, coefficients are GLS at that lambda and variance, log-likelihood, information matrix and filtered residuals follow.",
  "all responses on lines, all lambda in the interval, three methods, asymmetric weights", ONE, ["ml_error.py"],
  [("concentrated likelihoods", "ml_error.py:err_c_loglik,err_c_loglik_ord,err_c_loglik_sp"), ("post-estimation", "ml_error.py:BaseML_Error")], over=("inputs", "configurations"))
p("P10", "KP98 GM error models minimise the KP moments and run spatially weighted LS/2SLS",
  "The error-model estimators minimise a positive multiple of the squared Kelejian-Prucha moment residuals of the first-stage residuals over the documented interval, and coefficients, residuals and variance are those of (two stage) least squares on Cochrane-Orcutt filtered data at the chosen lambda; the combined model adds the spatial lag and its instruments.",
  "all responses on lines, every lambda the optimiser may return, asymmetric weights", ONE + "Moment errors that do not move the optimum on one map pass.",
  ["error_sp.py", "utils.py"], [("moments", "error_sp.py:_momentsGM_Error"), ("optimiser wrapper", "utils.py:optim_moments,foptim_par"), ("second stage", "error_sp.py:BaseGM_Error,BaseGM_Endog_Error,BaseGM_Combo")])
p("P11", "Homoskedastic GM error estimators use the exact published moments and variance",
  "For each A1 option the two moment equations, their weighting matrix and the joint asymptotic variance of coefficients and lambda equal the published expressions at every residual vector, lambda and weights matrix, for exogenous, endogenous and combined models.",
  "all responses on lines, every lambda, all A1 options, asymmetric weights", ONE, ["error_sp_hom.py", "utils.py"],
  [("moments", "error_sp_hom.py:moments_hom"), ("weights", "error_sp_hom.py:get_vc_hom,get_omega_hom"), ("A matrices", "utils.py:get_A1_hom,get_A2_hom")], over=("inputs", "configurations"))
p("P12", "Heteroskedastic GM error estimators use the exact published moments",
  "The moment equations, their heteroskedasticity-robust weighting matrix, the step-wise iteration and the joint variance of coefficients and lambda equal the published expressions at every residual vector, lambda and weights matrix for the exogenous, endogenous and combined models.",
  "all responses on lines, every lambda, step options, asymmetric weights", ONE, ["error_sp_het.py", "utils.py"],
  [("moments", "utils.py:_moments2eqs,get_A1_het"), ("psi", "error_sp_het.py:get_psi_sigma,get_a1a2,get_vc_het,get_vm_het,get_vm_het_tsls")], over=("inputs", "configurations"))
p("P13", "Regime OLS equals separate or interacted regressions, with exact Chow tests",
  "OLS with regimes equals OLS on block-interacted regressors, equals separate regressions when every term varies and error variances are separate, keeps fixed coefficients common, is invariant to regime order within the data and to label values, and its Chow tests equal the Wald statistic of coefficient equality with the right degrees of freedom.",
  "all responses, every option combination of constant and column selections, interleaved regime orders", ONE + "Only two or three option combinations are run.",
  ["ols_regimes.py", "regimes.py"], [("design expansion", "regimes.py:Regimes_Frame,x2xsp,set_name_x_regimes"), ("Chow", "regimes.py:Chow,_chow_run,buildR,wald_test")], over=("inputs", "configurations"))
p("P14", "Regime 2SLS and spatial lag estimators equal their interacted counterparts",
  "2SLS and GM_Lag with regimes equal the plain estimator on block-interacted regressors, endogenous variables and instruments (regime-specific weights when the lag varies by regime), and separate estimation equals fitting each regime alone.",
  "all responses on lines, option combinations, cross-regime weights", ONE, ["twosls_regimes.py", "twosls_sp_regimes.py", "regimes.py"],
  [("regime 2SLS", "twosls_regimes.py:TSLS_Regimes"), ("regime lag", "twosls_sp_regimes.py:GM_Lag_Regimes"), ("regime weights", "regimes.py:w_regimes,w_regimes_union")], over=("inputs", "configurations"))
p("P15", "Regime ML estimators maximise the likelihood of the interacted model",
  "ML lag and ML error with regimes optimise the exact concentrated likelihood of the block-interacted model (or of each regime's own subsample when parameters vary by regime) and report coefficients, variances and likelihood implied by the maximiser.",
  "all responses on lines, every spatial parameter value, option combinations", ONE, ["ml_lag_regimes.py", "ml_error_regimes.py"],
  [("regime lag", "ml_lag_regimes.py:ML_Lag_Regimes"), ("regime error", "ml_error_regimes.py:ML_Error_Regimes")], over=("inputs", "configurations"))
p("P16", "Regime GM error estimators equal their interacted or separated counterparts",
  "Every GM error model with regimes (KP98, homoskedastic, heteroskedastic; exogenous, endogenous, combined) equals the plain model on block-interacted data when the error parameter is common, and separate fits on each regime's subsample and weights when it varies.",
  "all responses on lines, every lambda, option combinations", ONE, ["error_sp_regimes.py", "error_sp_hom_regimes.py", "error_sp_het_regimes.py"],
  [("kp98", "error_sp_regimes.py:GM_Error_Regimes"), ("hom", "error_sp_hom_regimes.py"), ("het", "error_sp_het_regimes.py")], over=("inputs", "configurations"))
p("P17", "Reported multipliers and impacts equal the derivatives of the reduced form",
  "Direct, indirect and total impacts equal the mean diagonal, the remainder and the mean row sum of (I-rho W)^-1 (b + W g) for full and power methods and the 1/(1-rho) shortcut for the simple one, for lag, Durbin, SLX and regime models, and appear against the right variable.",
  "every rho in (-1,1), all coefficients, selection masks", ONE, ["sputils.py", "output.py"],
  [("multipliers", "sputils.py:spmultiplier,_sp_effects"), ("tables", "output.py:_summary_impacts")])
p("P18", "Spatial filter and inverse operators are exact inverses of each other",
  "The spatial filter computes (I - lambda W)x for cross sections and stacked panels, both inverse methods invert it from either side, partial power expansions equal truncated Neumann sums, and spatial lags of any order equal repeated products.",
  "all data and parameter values, symbolic weights, truncation orders 1..6", ONE, ["utils.py"],
  [("filter", "utils.py:get_spFilter"), ("inverse", "utils.py:inverse_prod,power_expansion"), ("lags", "utils.py:get_lags,get_lags_split")])
p("P19", "SUR estimates are the feasible GLS ones for every system",
  "For every pair or triple of equations, seemingly unrelated regressions return the GLS coefficients of the stacked system with the residual cross-equation covariance of the previous step, equal to equation-wise OLS when regressors coincide, with matching variance, covariance, likelihood, Breusch-Pagan, LR and LM tests and Wald tests.",
  "all responses on lines, equation counts 2..3, one-step and iterated", "The SUR tests need data downloads and do not run here at all.", ["sur.py", "sur_utils.py", "diagnostics_sur.py"],
  [("system algebra", "sur_utils.py:sur_crossprod,sur_corr,sur_est,sur_resids"), ("estimator", "sur.py:BaseSUR"), ("tests", "diagnostics_sur.py")])
p("P20", "Spatial SUR estimators use the right systems, likelihood, instruments",
  "SUR with spatial errors minimises the per-equation moment objective or the joint concentrated likelihood and then runs GLS on filtered data, and SUR with spatial lags is three stage least squares with each equation's Wy instrumented by its lags; inference follows from those at every parameter value.",
  "all responses on lines, every spatial parameter vector in the box", "Those tests need downloads and never run here.", ["sur_error.py", "sur_lag.py", "sur_utils.py"],
  [("error", "sur_error.py:BaseSURerrorGM,BaseSURerrorML,clik"), ("lag", "sur_lag.py:SURlagIV")])
p("P21", "Three stage least squares solves the system-weighted projected equations",
  "3SLS coefficients and variance equal the GLS solution on instrument-projected regressors weighted with the 2SLS residual covariance, and reduce to 2SLS for one equation or a diagonal weighting.",
  "all responses on lines, 2..3 equations", "Those tests need downloads and never run here.", ["sur.py", "sur_utils.py"], [("3SLS", "sur.py:BaseThreeSLS"), ("2SLS start", "sur_utils.py:sur_est")])
p("P22", "Panel FE/RE estimators are the within and quasi-demeaned regressions",
  "Pooled, fixed and random effects panel estimators equal OLS on the pooled, within- or quasi-demeaned data (Swamy-Arora weights) built from the unit/time structure, independent of stacking labels, with their variance and fit measures.",
  "all responses on lines, 3..5 units and 2..4 periods", "The panel tests need downloads and never run here.", ["panel.py", "panel_utils.py"], [("estimators", "panel.py"), ("data layout", "panel_utils.py:check_panel")])
p("P23", "Panel ML estimators maximise the exact panel likelihoods",
  "For every data set and every parameter in the search box the panel lag and error objectives (fixed and random effects) are the negative concentrated likelihoods of the demeaned model, and coefficients, variances and likelihood at any maximiser follow from it.",
  "all responses on lines, every spatial parameter, asymmetric weights", "Those tests need downloads and never run here.", ["panel_fe.py", "panel_re.py", "panel_utils.py"],
  [("fixed effects", "panel_fe.py:BasePanel_FE_Lag,BasePanel_FE_Error"), ("random effects", "panel_re.py:BasePanel_RE_Lag,BasePanel_RE_Error")])
p("P24", "Panel GM estimators use the exact KKP moments and GLS transformation",
  "The random effects GM estimators minimise the (weighted) Kapoor-Kelejian-Prucha moment residuals with the exact trace weights and then apply the exact GLS transformation; variances follow.",
  "all responses on lines, every parameter in the box, moment options", "Those tests need downloads and never run here.", ["sp_panels.py"], [("KKP", "sp_panels.py:BaseGM_KKP,GM_KKP,_moments_kkp,_get_panel_name")])
p("P25", "Panel specification tests equal their quadratic forms",
  "Panel LM lag, LM error, their robust versions, the Baltagi-Song-Koh family and the Hausman test equal their definitions in the pooled residuals for every data set and weights matrix, with correct degrees of freedom.",
  "all responses on lines, T = 2..3, asymmetric weights", "Those tests need downloads and never run here.", ["diagnostics_panel.py"], [("LM", "diagnostics_panel.py:panel_LMlag,panel_LMerror,panel_rLMlag,panel_rLMerror"), ("Hausman", "diagnostics_panel.py:panel_Hausman")])
p("P26", "Probit reports the likelihood, score, information and tests of the probit model",
  "At every coefficient vector the objective, gradient and Hessian handed to the optimiser are those of the probit log-likelihood, and variance, predictions, marginal effects, LR and spatial tests are the stated functions of the reported coefficients.",
  "all coefficient vectors, all binary responses up to the size bound", ONE, ["probit.py", "diagnostics_probit.py"], [("likelihood", "probit.py:BaseProbit"), ("tests", "diagnostics_probit.py")])
p("P27", "NSLX uses the stated distance-decay weights in likelihood, gradient and variance",
  "At every decay parameter the transformed lag, objective, gradient and covariance of the nonlinear SLX model equal those of least squares on x and W(alpha)x with power or exponential decay, and names and types stay aligned.",
  "all responses on lines, decay parameters, transforms, masks", "Tests need downloads and do not run.", ["nslx.py", "utils.py"], [("weights", "utils.py:make_wnslx"), ("objective", "nslx.py")])
p("P28", "Data generators satisfy exactly the model equation they are named after",
  "For every input, each generator's output satisfies its structural equation (lag, error, SLX, Durbin, SARMA, GNS, probit) with the given parameters, whichever inversion is used, and mismatched sizes are refused.",
  "all coefficients, errors, regressors and spatial parameters", ONE, ["dgp.py"], [("generators", "dgp.py")])
p("P29", "Bad input is rejected and constant columns are removed before estimation",
  "Missing or non-numeric values, wrong lengths, wide arrays, absent or mismatched weights, nonzero diagonals and invalid robust kernels are refused by every estimator before anything is estimated; constant columns are dropped with a warning and names stay aligned with coefficients.",
  "positions of the defect, container types, all estimators", "Tests try few estimators and positions.", ["user_output.py", "sputils.py"], [("validation", "user_output.py:check_arrays,check_y,check_weights,check_robust,check_constant")], over=("inputs", "configurations"))
p("P30", "Estimation never changes its inputs and is repeatable",
  "No estimator, test or generator modifies arrays, weights, dictionaries or name lists it was given, two fits of the same inputs give the same results, and fitting one model leaves another fitted model unchanged.",
  "all estimators, all inputs of the family, fit sequences of length two", "Tests never compare inputs before and after.", ["user_output.py", "regimes.py", "sur.py", "ml_lag.py"], [("defensive copies", "user_output.py:set_name_x,check_constant")], over=("inputs", "histories"))
p("P31", "Results are equivariant to observation order and to rescaling of variables",
  "Permuting the observations consistently across data, weights and regimes permutes fitted values and leaves estimates unchanged, and multiplying the response or a regressor by a constant rescales estimates accordingly and leaves test statistics and spatial parameters alone.",
  "all responses on lines, transpositions and cyclic permutations, symbolic scale factors", ONE, ["ols.py", "twosls_sp.py", "diagnostics_sp.py", "regimes.py"], [("all estimators", "__init__.py")])
p("P32", "Printed summaries and output tables show the model's own numbers",
  "Every coefficient, standard error, statistic, probability and diagnostic printed in the summary or stored in the output table is the corresponding attribute of the fitted model, on the row of its own variable.",
  "all estimators, all inputs of the family", "Tests never parse summaries.", ["output.py", "summary_output.py"], [("table", "output.py:output,out_part_middle"), ("diagnostic blocks", "output.py:_spat_diag_out,_nonspat_mid")], over=("inputs", "configurations"))
p("P33", "Sparse and dense helpers agree with plain linear algebra",
  "Each sparse/dense helper (products, broadcasts, stacking, min/max, finiteness, inverse, log-determinant, fast diagonals) returns what dense linear algebra gives for every argument type combination.",
  "all entries symbolic, all container combinations", "Tests use one matrix.", ["sputils.py"], [("helpers", "sputils.py")], over=("inputs", "configurations"))
p("P34", "Specification searches follow their published decision trees",
  "For every pattern of significant and insignificant test outcomes and every threshold, the general-to-specific, specific-to-general and pre-test strategies end in the model their decision tree prescribes and return that fitted model.",
  "all test p-values in [0,1], all thresholds", "Tests see one outcome of each tree.", ["spsearch.py"], [("search", "spsearch.py:stge_classic,stge_kb,stge_pre,gets_gns,gets_sdm")], over=("inputs", "histories"))
p("P35", "Regionalised regression returns a valid spatially connected partition",
  "The regression-based regionalisation assigns every observation to exactly one connected region with at least the minimum size, never exceeds the requested number of regions, and scores a split by the total of within-region residual norms, for every data set.",
  "all responses on lines; spanning trees and quorum values in the bound", "Tests run one map and one setting.", ["skater_reg.py"], [("split", "skater_reg.py:Skater_reg")], over=("inputs", "configurations"))
p("P36", "Convenience dispatchers give the same result as the class they dispatch to",
  "Calling an estimator through a general front end or with a regimes, method, parallel or data-frame argument yields the same estimates, names and tables as the specialised class called directly with the same options, no option being dropped.",
  "all estimators and dispatch options", "Tests call one spelling.", ["error_sp.py", "ols.py", "twosls.py", "twosls_sp.py", "ml_lag.py", "ml_error.py"], [("front ends", "error_sp.py:GMM_Error"), ("regime dispatch", "ols.py:OLS")], over=("inputs", "configurations"))
