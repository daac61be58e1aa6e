#!/usr/bin/env python3
"""Source of props/meta.json."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = {}
base = "Held on the executions made: models, data and parameters are random (from VERIF_SEED), not exhaustive. Trusts R, and the oracles in lib/ref.R and props/, which share no code with the package."
lme = " Cases in which the inner optimization of lme4 fails are skipped and counted."
def m(id, technique, rule, note=base, **k): M[id] = dict(technique=technique, rule=rule, note=note, **k)
nontriv = " Non-trivial: at least one comparison with the oracle was made; distinct: different description (model, data size, parameters)."
m("C01", "runtime monitoring: online oracle (exact likelihood by variable elimination on a grid)", "Each case is a random model of one of eight kinds with random data and parameters, evaluated at levels 1 to 4 (5 in the thorough tier)." + nontriv, base + lme + " Tolerances of levels are about five times the largest error seen in thousands of cases, so only errors beyond those of the approximation are reported.")
m("C02", "runtime monitoring: differential oracle (own adaptive quadrature; lme4 AGQ)", "Each case is a random two-level model, at levels 0 to 5." + nontriv, base + lme)
m("C03", "runtime monitoring: differential oracle (own Laplace approximation; Laplace method)", "Each case is a random model and parameter vector." + nontriv, base + lme)
m("C04", "runtime monitoring: closed-form oracle on the engine", "Each case is a random product of Gaussian terms on a random graph, at several levels. Non-trivial: the value was compared with the closed form; distinct: different graph and value.")
m("C05", "runtime monitoring: statistical oracle and history monitor", "Each case is a random model and parameters, evaluated with several seeds, numbers of samples and histories." + nontriv, base + lme + " Statistical thresholds are at a probability below 1e-7 per case, on a seed that is fixed by VERIF_SEED.")
m("C06", "runtime monitoring: online oracle (Newton's method on an independent design)", "Each case is a random model at four parameter vectors." + nontriv, base + lme)
m("C07", "runtime monitoring: online oracle (explicit tensor contraction)", "Each case is a random logit model and parameters, or a link or order with no such approximation." + nontriv, base + lme)
m("C08", "runtime monitoring: online oracle (closed-form derivatives)", "Each case is a vector of linear predictors, responses and weights.  Non-trivial: values compared; distinct: different link, size, kind and values.")
m("C09", "runtime monitoring: history monitor (each value against one computed afresh; state compared before and after)", "Each case is a random history of making, evaluating (well and badly) and discarding the likelihood functions of two models." + nontriv, base + lme)
m("C10", "runtime monitoring: metamorphic oracle", "Each case is a random model and transformation, evaluated by several methods." + nontriv, base + lme)
m("C11", "runtime monitoring: online oracle (independent evaluation of the substitution)", "Each case is a random formula with random substituted expressions and subformulas, or an expression which is not linear. Non-trivial: designs compared, or a refusal seen; distinct: different formulas or data.")
m("C12", "runtime monitoring: online oracle (design from the positions of items)", "Each case is a random way of indexing one to three dimensions, or a wrong one. Non-trivial: designs compared, or a refusal seen; distinct: different formulas or data.")
m("C13", "runtime monitoring: fault injection into calls (mutation of valid calls) with a refusal monitor", "Each case is a valid call broken in one of several dozen ways, for a random model and method; the monitor requires an error, then a valid call to give its usual value. Non-trivial: a refusal was required; distinct: different way, model and method.", base + lme)
m("C14", "runtime monitoring: online oracle (own derivatives of the likelihood at the fit)", "Each case is a fit of a random model by a random method, examined with Newton decrements and second differences of its likelihood." + nontriv, base + lme + " Fits at the edge of the range, or whose likelihood is not smooth enough for two step sizes to agree, are examined for the maximum only.")
m("C15", "runtime monitoring: online oracle over the objects and text which describe a fit", "Each case is a fit, whose coefficients, variance, summary and printed text are compared with its estimates and with a design built independently." + nontriv, base + lme)
m("C16", "runtime monitoring: online oracle (own divergence; own complexity of the dependence graph)", "Each case is a fit with a check of the approximation, a fit near the edge of the range, or a model at various levels on either side of the limit of complexity." + nontriv, base + lme)
m("C17", "sanitizers: AddressSanitizer and UndefinedBehaviorSanitizer, with the assertions of Eigen and the standard library, under hostile workloads", "Each case is a hostile or degenerate model at hostile parameters by several methods, a direct use of the engine, a set of derivatives, a history of saving, restoring and discarding objects, or a fit, in a process whose compiled code is instrumented. Evaluations count the calls observed; distinct: different description.", "Held on the executions made. Only the package's own compiled code, with the Eigen and Boost headers inlined in it, is instrumented; not R, lme4 or Matrix. Engine uses are well-formed (sizes agree), values are not.", phases=[dict(name="asan", mode="asan")])
m("C18", "runtime monitoring: differential runs with different patterns in fresh, freed and uninitialised memory; valgrind memcheck", "Each case is a random model whose values by every method are recorded bit for bit, in each of several processes: memory from malloc filled with nothing, or one of two patterns, when allocated and freed, and in a build whose uninitialised local variables hold a pattern; and under valgrind, which reports any decision made on a value never set. Non-trivial: values recorded; distinct: different values.", "Held on the executions made, for the patterns used. MemorySanitizer cannot be used: it needs R, lme4 and every library built with it.", compare=True, phases=[dict(name="plain", mode="plain"), dict(name="perturb-55", mode="plain", env={"MALLOC_PERTURB_": "85"}), dict(name="perturb-aa", mode="plain", env={"MALLOC_PERTURB_": "170"}), dict(name="stack-pattern", mode="pattern", env={"MALLOC_PERTURB_": "1"}),
  dict(name="valgrind", mode="plain", valgrind="--tool=memcheck --error-exitcode=99 --exit-on-first-error=yes --leak-check=no --num-callers=30 -q", slow=6)])
m("C19", "runtime monitoring: metamorphic oracle (every encoding of one response)", "Each case is a random model whose response is given in every encoding, at random parameters, for several methods." + nontriv, base + lme)
m("C20", "runtime monitoring: metamorphic oracle (settings against their documented effect)", "Each case is a random model and a set of settings, some of them foreign, unknown or duplicated." + nontriv, base + lme)
m("C21", "runtime monitoring: online oracle (own adaptive quadrature)", "Each case is a random two-level model at several numbers of points." + nontriv, base + lme)
m("C22", "runtime monitoring: metamorphic oracle (data supplied in another way), and monitors of the user's environments", "Each case is a random model supplied twice: plainly, and with its data in another container or order, among unused variables of awkward names, with variables of the same names elsewhere, or with its formula or family made in another way." + nontriv, base + lme)
m("C23", "runtime monitoring: closed-form and metamorphic oracles at the limits", "Each case is a random model and method, with no variance, vanishing variance, some variances zero, extreme parameters, or with observations of weight zero added." + nontriv, base + lme + " Adaptive quadrature is left out at extreme parameters, where it is lme4's own.")
m("C24", "runtime monitoring: differential oracle (model.matrix of R; random effects designs built by hand)", "Each case is a random formula from about twenty fixed terms and seventeen random terms, with one of a dozen responses." + nontriv, base + " Formulas which lme4 refuses, or whose columns are dependent, are skipped and counted.")
m("C25", "runtime monitoring: differential oracle (own Laplace, quadrature and Monte Carlo for each family)", "Each case is a random Poisson, complementary log-log or Cauchy model at three parameter vectors, and calls which must be refused." + nontriv, base + lme + " For the Cauchy link, whose likelihood may have several modes, values at another mode are not compared.")
json.dump(M, open(R + "/props/meta.json", "w"), indent=1)
