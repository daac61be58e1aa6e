#!/usr/bin/env python3
"""Source of properties.jsonl (kept as code because JSON lines are hard to edit)."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or ["find_lfun_glmm(find_modfr_glmm(...))(pars)"], hook_needed=None)))

ENG = ["src/ClusterGraph.cpp", "src/ContinuousBelief.cpp", "src/MixedContinuousBelief.cpp", "src/GLMMBelief.cpp", "src/NormalBelief.cpp",
       "src/SparseBelief.cpp", "src/SparseGrid.cpp", "src/IntegratedFunction.cpp", "src/MultiNormal.cpp", "src/QuadratureRule.cpp"]
p("C01", "Sequential reduction converges to the exact likelihood",
  "For any binomial model (logit or probit) with any structure of random effects, the log-likelihood given by the sequential reduction method approaches the exact log-likelihood as the number of sparse grid levels grows, with errors which shrink from level to level. This holds with nested, crossed, pairwise and independent random effects, random slopes, weights (several trials per observation) and offsets.",
  ["inputs", "configurations"], "all models of modest dependence, all parameter values at which fitted probabilities are not extreme, levels 0 to 6",
  "The tests compare fitted values on two data sets, for one level; the structure of the dependence graph, which decides every step of the method, hardly varies.",
  ENG + ["R/loglikelihood.R", "R/splitframe.R"], [("variable elimination", "src/ClusterGraph.cpp"), ("sparse grid storage of messages", "src/SparseBelief.cpp"), ("splitting of the model into local terms", "R/splitframe.R")])
p("C02", "Sequential reduction of independent effects is adaptive quadrature",
  "In a two-level model (one random effect for each group), the log-likelihood by sequential reduction at level k equals that by adaptive Gauss-Hermite quadrature with 2^(k+1) - 1 points, at every parameter value.",
  ["inputs", "configurations"], "all two-level models with a random intercept or a single random slope, all parameters, levels 0 to 6",
  "Documented, but tested only through one fitted model at level 3.", ENG + ["R/loglikelihood.R"], [("number of quadrature points from the level", "R/control.R"), ("quadrature", "src/QuadratureRule.cpp, src/IntegratedFunction.cpp")])
p("C03", "Sequential reduction at level 0 is the first-order Laplace approximation",
  "With nSL = 0 the log-likelihood by sequential reduction equals the first-order Laplace approximation, up to the constant binomial coefficients, whatever the structure of the random effects and at every parameter value.",
  ["inputs", "configurations"], "all random effects structures, including large and densely crossed ones, all parameters",
  "No test uses level 0 with more than one random effect per observation, and the identity must hold for every elimination order.", ENG, [("one-point rule at the conditional mode", "src/IntegratedFunction.cpp")])
p("C04", "The sequential reduction engine is exact on Gaussian models",
  "Given a product of Gaussian terms over any sets of items, with the mean and precision of that product, the engine behind sequential reduction returns the exact logarithm of its integral, at every level and with any number of quadrature points. The answer depends neither on the order of the terms, the order of items in a term, the labels of the items, nor on earlier evaluations; and the width reported is that of the elimination, so two for any tree.",
  ["inputs", "histories"], "all dependence graphs (chains, stars, trees, cycles, grids, complete, random; repeated terms; up to 20 items), all means and precisions",
  "The engine is only ever tested through fitted models, in which an error is confounded with the error of the approximation.", ENG + ["src/Graph.cpp", "src/Quadratic.cpp", "src/subsetEigen.cpp"], [("elimination order", "src/Graph.cpp, src/ClusterGraph.cpp"), ("sparse storage", "src/SparseGrid.cpp, src/Basis.cpp"), ("conditional normal distributions", "src/MultiNormal.cpp")],
  ["cluster_graph(continuous_beliefs())$compute_log_normalizing_constant"])
p("C05", "Importance sampling is a smooth deterministic function with honest error",
  "Once made, the importance sampling log-likelihood is a deterministic and smooth function of the parameters, which uses no further random numbers and depends on the seed only; and its error against the exact log-likelihood is that of importance sampling from the normal approximation at the mode, with the number of samples asked for. It is finite however many observations there are.",
  ["inputs", "histories"], "all models, parameters, seeds and numbers of samples", "One fitted model with 100 samples is compared, with a tolerance of 0.2 on the estimates.",
  ["R/IS.R", "R/loglikelihood.R"], [("samples drawn once, when the function is made", "R/IS.R"), ("weights scaled by the largest", "R/IS.R")])
p("C06", "The Laplace method gives the first-order Laplace approximation",
  "For any model with uncorrelated or correlated random effects, with weights and offsets or without, the Laplace method gives the logarithm of the first-order Laplace approximation to the likelihood at every parameter value, for fixed and random effects in the documented order (random effects parameters first).",
  ["inputs"], "all designs (including those made by substitution), parameters, weights, offsets", "The tests only compare fitted values of three models with those of lme4.",
  ["R/laplace.R", "R/loglikelihood.R", "R/model_frames.R"], [("deviance function of lme4 on the assembled model frame", "R/loglikelihood.R")])
p("C07", "Second-order Laplace adds exactly the second-order correction",
  "The Laplace method of order 2 equals that of order 1 plus the second-order correction of Shun and McCullagh, computed from the third and fourth derivatives of the log integrand at its mode. For links with no such correction, and for orders above 2, the model is refused rather than fitted with a lower order.",
  ["inputs", "configurations"], "all logit models of any random effects structure, weights, offsets, parameters", "The tests check the sign of a change in estimates, in one model.",
  ["R/hol.R", "R/laplace.R", "R/utility.R"], [("contraction of derivatives", "R/hol.R"), ("refusal", "R/laplace.R")])
p("C08", "Likelihood terms and their derivatives are right for every input",
  "For the logit and probit links, the log density of a binomial response as a function of the linear predictor, and its first four derivatives, are right for every response, weight and linear predictor whose probability is above 1e-8, are symmetric under exchange of success and failure, add over observations, and are finite everywhere else. Unknown families and links are refused, and arguments are not modified.",
  ["inputs"], "all linear predictors, responses (0, 1, fractions), weights including zero, lengths", "The tests compare with numerical derivatives at three points.",
  ["src/Binomial.cpp", "src/FamilyGivenMean.cpp", "src/LogitLink.cpp", "src/ProbitLink.cpp", "src/Link.cpp", "src/Family.cpp"], [("derivatives of the inverse link", "src/LogitLink.cpp, src/ProbitLink.cpp"), ("chain rule", "src/Family.cpp")], ["extended_family(...)$evaluate, evaluate_d1..d4"])
p("C09", "Evaluating a likelihood has no side effects and no memory",
  "The value of a log-likelihood function depends on its argument alone: not on earlier evaluations of it or of any other function made from the same or another model frame, on evaluations which failed, or on garbage collection. Making and evaluating likelihood functions leaves the model frame, the data, and the arguments the user supplied exactly as they were.",
  ["histories", "inputs"], "all interleavings of making, evaluating (with good and bad parameters) and discarding likelihood functions of every method",
  "Tests evaluate one function at a time; external state (external pointers, objects modified in place) only shows in histories.", ["R/loglikelihood.R", "R/RcppR6.R", "src/GLMMBelief.cpp", "src/ClusterGraph.cpp", "src/SparseStore.cpp"],
  [("copy of parts lme4 changes in place", "R/loglikelihood.R"), ("initial state restored for each evaluation", "src/ClusterGraph.cpp")])
p("C10", "The likelihood is invariant to how the model is written down",
  "The log-likelihood by every deterministic method is unchanged by reordering the observations, relabelling the groups, swapping success and failure while negating the linear predictor, replacing repeated observations by weights, moving a fixed effect of known size into an offset, and rescaling covariates with their parameters. The log-likelihoods of independent sets of data add.",
  ["inputs"], "all models, parameters and transformations", "A relation between two runs on different inputs; no test has any.", ["R/splitframe.R", "R/model_frames.R", "src/ClusterGraph.cpp", "src/Graph.cpp"],
  [("grouping of observations by the items they involve", "R/splitframe.R")])
p("C11", "Substitution is equivalent to writing the design out",
  "A model with substituted variables has the same design for its fixed and random effects as if the subformula had been evaluated for each observation and combined by hand: for any linear expression in the indexed variable (sums, differences, scalar and vector multiples and divisions, brackets, signs) and any subformula with fixed effects, random effects, or both. Other terms of the formula (intercept, covariates, random effects, offset) keep their meaning, and expressions which are not linear in the substituted variable are refused.",
  ["inputs", "programs"], "all linear expressions, subformulas, index variables, other terms and any number of substituted variables", "The tests have four expressions.",
  ["R/subformula.R", "R/modify_subexpr.R", "R/model_frames.R"], [("arithmetic on model frames", "R/model_frames.R"), ("rewriting of expressions", "R/modify_subexpr.R"), ("splitting of formulas", "R/subformula.R")], ["find_modfr_glmm(...)"])
p("C12", "Each index picks out the item it names",
  "In a subformula, element i of an indexed variable is the item with that level (factor), number, or name of the index variable in the data, also with several indices, levels which are unused, and covariates given as vectors, matrices or arrays. Indices which are inconsistent, missing, of the wrong length, or neither factors nor numbers are refused.",
  ["inputs"], "all index types, numbers of dimensions, level orders, array shapes", "The tests index with one pair of factors and one matrix.", ["R/indexing.R", "R/subformula.R"],
  [("resolution of indices", "R/indexing.R")], ["find_modfr_glmm(...)"])
p("C13", "Invalid input is refused, never silently accepted",
  "Missing values, unknown methods, unsupported families and links, parameters of the wrong length, non-integer weights, models with no random effects, invalid control values, too difficult approximations, missing variables, and malformed substitutions are each reported as an error, and never give a fit or a number. A refused call leaves later valid calls unaffected.",
  ["inputs", "histories"], "all ways of breaking a valid call, for every method and family of model", "A handful of errors are tested, each for one model and method.",
  ["R/control.R", "R/utility.R", "R/loglikelihood.R", "R/model_frames.R", "R/subformula.R", "R/modify_subexpr.R"], [("checks", "R/control.R, R/utility.R, R/subformula.R")], ["glmm(...), find_modfr_glmm(...), find_lfun_glmm(...)"])
p("C14", "A fit is a local maximum, with the inverse information as its variance",
  "The estimate returned by a fit is a local maximum of the approximate log-likelihood of the method chosen (up to the signs of standard deviations), which is the function returned with the fit and the one found separately for the same model; the variance is the inverse of the observed information there. Neither printing of progress nor a previous fit used as starting point changes the maximum found, and standard deviations are reported as positive.",
  ["inputs", "configurations"], "all models and methods whose approximate maximum is finite", "The tests compare the estimates of three models.", ["R/fit.R", "R/optimization.R"],
  [("optimization", "R/optimization.R"), ("sign convention", "R/fit.R")], ["glmm(...)"])
p("C15", "Coefficients, variances and summaries agree with the fit",
  "For every fit the coefficients are the estimates, random effects first, named after their terms and columns; the variance matrix, standard errors, z values and p-values are those of the same parameters; and the printed output and the summary show these numbers, the method used, and the numbers of observations and of groups of every term. Printing never fails, whatever the numbers of fixed and random effects, terms or subformulas.",
  ["inputs"], "all fitted models", "One test checks names, for one model.", ["R/glmmFit.R"], [("methods", "R/glmmFit.R")], ["coef, vcov, summary, print"])
p("C16", "Warnings about the approximation are given exactly when due",
  "With check_Laplace, the divergence reported is half the quadratic form of the gradient of the second-order correction in the variance of the estimate, and the warning is given exactly when it exceeds the threshold. A fit with a standard deviation near the edge of the range searched is reported as possibly infinite with no variance, and sequential reduction refuses models too complex for the level asked for.",
  ["inputs", "configurations"], "all models, thresholds, levels", "Three tests check that a warning is given, or that the divergence is positive.", ["R/hol.R", "R/fit.R", "R/loglikelihood.R"],
  [("divergence", "R/hol.R"), ("guards", "R/fit.R, R/loglikelihood.R")], ["glmm(...)"])
p("C17", "No memory error or undefined behaviour in native code",
  "No use of the package, however large, small, degenerate or hostile the model and the parameters, and whatever the order in which objects are made, used and discarded, makes the compiled code read or write outside of its memory, use freed memory, violate an internal assertion, or execute an undefined operation.",
  ["inputs", "histories"], "all models, parameters (including not finite and extreme), well-formed uses of the internal engine, and garbage collections", "Ordinary tests only notice memory errors that crash.",
  ENG + ["src/RcppR6.cpp", "src/GLMMBelief.cpp", "src/matrixHelper.cpp"], [("index arithmetic", "src/SparseGrid.cpp, src/Point.cpp, src/subsetEigen.cpp")], ["AddressSanitizer and UndefinedBehaviorSanitizer build"])
p("C18", "Results never depend on uninitialised memory",
  "The same call gives bit for bit the same results in different processes, whatever memory contained before: results depend on no uninitialised value.",
  ["inputs", "histories"], "all models and methods; all contents of fresh and freed memory", "A test runs once with whatever memory contains, mostly zero.", ENG + ["src/Parameters.cpp"], [("initialisation of every object", "src/*.cpp")], ["processes with memory filled with different patterns; valgrind"])
p("C19", "All encodings of a response give the same likelihood",
  "A binary response given as numbers, logicals, a factor (first level is failure), or a two-column matrix of counts, and a grouped one given as counts or as proportions with weights, give the same log-likelihood for each method, with the same additive constant where the weights are the same.",
  ["inputs"], "all models, methods, encodings", "Tests have one encoding per model.", ["R/utility.R", "R/splitframe.R", "R/IS.R", "R/hol.R"], [("common form of response and weights", "R/utility.R")])
p("C20", "Control settings do what they say",
  "Each control setting has its documented default for its method, changes only the method it belongs to, and is respected whatever other settings are given; settings which are unknown or belong to another method are ignored with a warning naming them. Settings passed for lme4 have effect in every step.",
  ["configurations"], "all combinations of settings, methods and values", "Three tests check a warning or an error each.", ["R/control.R", "R/fit.R", "R/loglikelihood.R"], [("defaults and checks", "R/control.R")], ["find_lfun_glmm(...), glmm(...)"])
p("C21", "Adaptive quadrature uses the number of points asked for",
  "The AGQ method gives the adaptive Gauss-Hermite approximation with nAGQ points (15 by default, 1 being the first-order Laplace approximation) for every two-level model; models for which there is none are refused.",
  ["inputs", "configurations"], "all two-level models, 1 to 25 points, parameters, weights, offsets", "Tested through one fit with 15 points.", ["R/loglikelihood.R", "R/control.R"], [("deviance of lme4 with nAGQ points", "R/loglikelihood.R")])
p("C22", "It does not matter how the data are supplied",
  "Data given as a data frame, list, or environment, with variables which are not used, in any order, or with global variables of the same names around, give the same model; so does a formula made in a function or by hand. The data supplied always take precedence over variables of the same name elsewhere.",
  ["inputs", "configurations"], "all models and containers", "Tests pass data frames and lists of exactly the variables needed.", ["R/model_frames.R", "R/subformula.R", "R/indexing.R"], [("selection of variables", "R/model_frames.R")], ["find_modfr_glmm(...)"])
p("C23", "Limits and extremes: no variance, large effects, no information",
  "With all standard deviations zero, every method gives the likelihood of the model with no random effects. As they shrink to zero the approximations converge to this, at extreme parameters the result of the methods other than adaptive quadrature is a finite number, no greater than its largest possible value, or an error, but never missing or infinite, and observations of weight zero change nothing.",
  ["inputs"], "all models and methods; standard deviations from 0 to 1e3, fixed effects up to 1e4", "Tests stay at moderate parameters.", ["src/GLMMBelief.cpp", "src/Binomial.cpp", "R/loglikelihood.R", "R/IS.R"], [("truncation of probabilities", "src/LogitLink.cpp, src/ProbitLink.cpp")])
p("C24", "Formulas without substitution have their usual meaning",
  "The design for fixed effects (factors, interactions, transformations, matrices, intercept), the design for random effects (nested, crossed, slopes, correlated, factors), the number, bounds and order of parameters, the response, weights and offset are those of the formula as understood by lme4 and R, for every method.",
  ["inputs", "programs"], "all formulas, data", "A few formulas are used in tests, all with one covariate.", ["R/model_frames.R", "R/splitframe.R"], [("parsing by lme4 and R", "R/model_frames.R")], ["find_modfr_glmm(...)"])
p("C25", "Other families work by every method which supports them, or are refused",
  "For count responses and for binomial models with other links, the Laplace, adaptive quadrature and importance sampling methods give the corresponding approximation for that family; sequential reduction and second-order Laplace refuse them, rather than give the likelihood of another family.",
  ["inputs", "configurations"], "Poisson (log) and binomial (cloglog, cauchit) models, all parameters", "One test checks a refusal.", ["R/IS.R", "R/utility.R", "R/laplace.R", "R/loglikelihood.R", "R/hol.R"], [("family carried with the model frame", "R/model_frames.R")])
assert len({x["id"] for x in P}) == len(P)
for x in P: assert len(x["title"]) <= 80, x["title"]
with open(R + "/properties.jsonl", "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
