"""Writes /verif/properties.jsonl (kept as a script so that the JSON stays valid)."""
import json, os
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe:
        a["observe_at"] = observe
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=a))


prop("C01", "Conjugate steps sample the exact full conditional",
     "Whenever a sampler updates a latent variable with a closed-form conjugate step (gamma prior on a Poisson rate, beta prior on a binomial or negative-binomial success probability), the new value is drawn, independently for every element, from exactly that variable's conditional distribution given the observed values and the values of its hyper-parameters. The prior is the one the user wrote: shapes, rates and counts are never confused with one another, and the observed value enters as itself.",
     ["inputs", "programs"],
     "all hyper-parameter values and shapes (constants, inputs or other variables), all observation values (including 0 and the maximum count), all vector lengths",
     "The tests only check that the relation rewrites one term to another and, at best, the posterior mean for a single prior and a single data set, so a wrong parameter that is close at that point (or equal, e.g. a rate of 1) goes unnoticed.",
     ["aemcmc/conjugates.py"],
     [("gamma_poisson_conjugateo / local_gamma_poisson_posterior", "aemcmc/conjugates.py"),
      ("beta_binomial_conjugateo / local_beta_binomial_posterior", "aemcmc/conjugates.py"),
      ("beta_negative_binomial_conjugateo / local_beta_negative_binomial_posterior", "aemcmc/conjugates.py")])

prop("C02", "Specialised steps are only used for models they are valid for",
     "A closed-form or data-augmentation step is assigned to a variable only if the step's target is that variable's full conditional in the user's model: the prior family and its fixed constants (zero mean, unit half-Cauchy scale, the sign and form of the link), the way the variable enters the observation model, and the absence of any other dependent all have to be the ones the step assumes. In every other model the variable is sampled by the generic gradient-based step instead. In the models the steps are built for (conjugate pairs, horseshoe priors, logistic regressions; one or several of them in one model) they are used.",
     ["programs"],
     "all model graphs built from the supported random variables, including near misses of each supported pattern (extra constant factors, non-zero means, non-unit scales, swapped arguments, broadcast or shared latents, additional observations)",
     "The tests try the supported pattern and a handful of near misses; the claim ranges over every other model a user may write.",
     ["aemcmc/gibbs.py", "aemcmc/conjugates.py", "aemcmc/utils.py", "aemcmc/rewriting.py"],
     [("horseshoe_match / normal_horseshoe_finder", "aemcmc/gibbs.py"),
      ("bern_sigmoid_dot_match / nbinom_sigmoid_dot_match / gamma_match and the finders", "aemcmc/gibbs.py"),
      ("is_elementwise_model, conjugate relations", "aemcmc/conjugates.py"),
      ("get_rv_dependents", "aemcmc/utils.py")])

prop("C03", "The horseshoe step leaves the shrinkage conditional invariant",
     "For a normal vector with mean zero and standard deviation local x global shrinkage, both standard half-Cauchy, the shrinkage update is a Markov step that leaves the exact joint conditional distribution of the local and global shrinkage given the coefficients (and the given noise variance) unchanged. The returned values are on the scale of the shrinkage parameters themselves (positive, not squared, not inverted), one local value per coefficient and one global value.",
     ["inputs"],
     "all coefficient vectors and lengths (including 1), all current shrinkage values, all noise variances",
     "The tests compare long-run averages for two data sets with loose tolerances; heavy-tailed conditionals hide wrong rates.",
     ["aemcmc/gibbs.py"],
     [("horseshoe_posterior", "aemcmc/gibbs.py"), ("normal_horseshoe_finder", "aemcmc/gibbs.py")])

prop("C04", "Gaussian regression coefficients have the exact posterior law",
     "For a regression matrix X with n rows and p columns, weights omega, prior inverse standard deviations and targets z, the regression step draws from the normal law with precision X' diag(omega) X + diag(inverse std. dev. squared) and mean (precision inverse) X' diag(omega) z, whichever of the two algorithms the dimensions select. The two underlying multivariate normal samplers have exactly the mean and covariance their descriptions state.",
     ["inputs"],
     "all n >= 1 and p >= 1 (p < n, p = n, p > n), all X, all positive weights and scales, all targets",
     "The tests use prior scales of one or sparse special matrices and check sample moments with loose tolerances; squaring or dropping a factor is invisible there.",
     ["aemcmc/gibbs.py", "aemcmc/dists.py"],
     [("normal_regression_posterior and its two branches", "aemcmc/gibbs.py"),
      ("multivariate_normal_rue2005", "aemcmc/dists.py"),
      ("multivariate_normal_cong2017", "aemcmc/dists.py")])

prop("C05", "Logistic regression steps leave the coefficient posterior invariant",
     "For Bernoulli and negative-binomial regression with a logistic link and independent zero-mean normal coefficients, the coefficient update leaves the exact conditional distribution of the coefficients given the data (and dispersion) unchanged: the auxiliary weights are Polya-Gamma variables with the right shape and tilt given the current coefficients, and the new coefficients are drawn from the implied Gaussian with the user's prior scales.",
     ["inputs"],
     "all X, all outcomes and counts, all dispersions, all scalar or vector prior scales, all current coefficient values",
     "The tests look at long-run means with one prior scale and one data set and cannot tell a slightly wrong tilt, offset or scale from Monte Carlo noise.",
     ["aemcmc/gibbs.py", "aemcmc/dists.py"],
     [("bern_normal_posterior", "aemcmc/gibbs.py"), ("nbinom_normal_posterior", "aemcmc/gibbs.py"),
      ("PolyaGammaRV", "aemcmc/dists.py")])

prop("C06", "Table counts and dispersion updates follow their stated laws",
     "The Chinese-restaurant-process sampler draws, independently for every element and for arrays of any shape, the number of tables for that count (zero for a count of zero) with concentration h. The dispersion update leaves the exact conditional distribution of the negative-binomial dispersion under its gamma prior, given the counts and success probabilities, unchanged.",
     ["inputs"],
     "all counts (including 0, 1 and large), all concentrations, success probabilities, prior parameters, all array shapes",
     "The tests check a mean over a few counts and the posterior mean for one configuration within wide tolerances.",
     ["aemcmc/gibbs.py"],
     [("sample_CRT", "aemcmc/gibbs.py"), ("nbinom_dispersion_posterior", "aemcmc/gibbs.py")])

prop("C07", "State sequences follow the exact hidden-Markov smoothing law",
     "The forward-filtering backward-sampling step draws whole state sequences from their exact joint conditional distribution given initial-state probabilities, transition matrices and per-state log-likelihoods, with the state at position t in entry t of the result. This holds for one shared or per-time transition matrices, unnormalised initial probabilities, and observation likelihoods and sequence lengths for which the unscaled probabilities would underflow.",
     ["inputs"],
     "all sequence lengths >= 1, all numbers of states, all transition matrices, initial vectors and log-likelihood matrices with non-zero total probability",
     "The tests use deterministic or near-deterministic transitions and a few seeds, where a misaligned transition matrix or a wrong rescaling is invisible.",
     ["aemcmc/ffbs.py"],
     [("ffbs_step forward pass", "aemcmc/ffbs.py"), ("ffbs_step backward pass", "aemcmc/ffbs.py")])

prop("C08", "The gradient-based step targets the model's joint density",
     "For every set of variables it is responsible for, the gradient-based step moves on the density of the user's model restricted to those variables, conditioned on the current values of all other variables and observations and expressed in the transformed (unconstrained) space with the matching change-of-variables term. It starts at the variables' current values and returns values in the original space, each assigned to the variable it belongs to.",
     ["programs", "inputs"],
     "all continuous models, all mixes of transformed and untransformed variables, shapes and dependent supports, all current values",
     "The tests run the sampler on two or three models and compare means; a wrong Jacobian, swapped variables of the same shape or a stale conditioning value moves these means by less than the tolerance.",
     ["aemcmc/nuts.py", "aemcmc/basic.py"],
     [("step / construct_sampler", "aemcmc/nuts.py"), ("transform_forward / transform_backward / get_transform", "aemcmc/nuts.py")])

prop("C09", "Every unobserved variable gets exactly one usable step",
     "Building a sampler succeeds for every model of continuous latent variables, and returns exactly one update and one initial-value placeholder of the variable's own type for every unobserved random variable of the user's model, keyed by the user's own variable objects, and none for observed ones. The updates, their parameters and placeholders compile into a function that runs when given the observed values, initial values and step parameters.",
     ["programs"],
     "all models with continuous latents: any nesting, shapes, constants, shared variables or inputs as data, several observations",
     "The tests construct samplers for about ten models.",
     ["aemcmc/basic.py", "aemcmc/rewriting.py", "aemcmc/types.py", "aemcmc/nuts.py"],
     [("construct_sampler", "aemcmc/basic.py"), ("construct_ir_fgraph", "aemcmc/rewriting.py"),
      ("sampler_finder / SamplerTracker", "aemcmc/rewriting.py"), ("SamplingStep", "aemcmc/types.py")])

prop("C10", "One sweep is a Gibbs sweep over the newest values",
     "Within one sweep each variable's update conditions on the newest available value of every other variable: the value already produced in this sweep when the other variable's step comes earlier, its current value otherwise, and always the observed value for observed variables. A variable's own update uses its own current value, never a value from an earlier or later sweep or a value of another variable of the same shape.",
     ["programs", "inputs"],
     "all models that mix several steps (closed-form, augmentation, gradient-based), all current and observed values",
     "The tests look at long-run averages, which a stale or crossed value changes little.",
     ["aemcmc/basic.py", "aemcmc/nuts.py", "aemcmc/gibbs.py"],
     [("construct_sampler: posterior_sample_steps", "aemcmc/basic.py")])

prop("C11", "Sampler updates contain no draw from the model's prior",
     "The updates depend on nothing but the placeholders, the observed values, the user's data inputs and shared variables, the step parameters and the step's own random numbers: no unobserved variable of the user's model (or copy of it) is re-drawn from its prior inside an update, and no internal placeholder is left unbound.",
     ["programs"],
     "all models, including ones whose shapes, supports, transforms or hyper-parameters depend on other random variables",
     "Such a graph compiles and runs, and its output is a plausible random number, so tests on averages do not notice.",
     ["aemcmc/basic.py", "aemcmc/nuts.py", "aemcmc/rewriting.py", "aemcmc/gibbs.py"],
     [("construct_sampler", "aemcmc/basic.py"), ("step", "aemcmc/nuts.py"), ("inline_SubsumingElemwise", "aemcmc/rewriting.py")])

prop("C12", "Repeated sweeps use fresh randomness for every step",
     "When a compiled sweep is called repeatedly with the returned updates (and the stream's own updates), every random number generator used by any step is advanced by that call, to the state that step leaves it in, and no two steps or sweeps reuse the same random numbers. Each update is stored under the shared variable it belongs to.",
     ["histories", "programs"],
     "all sequences of sweeps, all models, including steps that draw inside loops",
     "A step whose generator is never advanced, or is advanced by another step's state, gives right-looking marginals per call; the tests do not compare generator states across calls.",
     ["aemcmc/basic.py", "aemcmc/gibbs.py", "aemcmc/nuts.py", "aemcmc/ffbs.py"],
     [("posterior_updates", "aemcmc/basic.py"), ("DispersionGibbsKernel updates", "aemcmc/gibbs.py"), ("construct_sampler", "aemcmc/nuts.py")],
     state=[("RNG shared variables", "generators owned by the random stream, or created inside steps")])

prop("C13", "Prior sampling yields independent draws of the joint prior",
     "Prior sampling returns, for each requested variable in the requested order, the requested number of draws stacked on a new leading axis; draws at the same position belong to one joint draw of the model (a variable and its parents agree), different positions are independent, and the returned updates advance the generators so that a second call continues with new draws. The update collection it relies on contains the update of every generator (and of every other shared variable with an update of its own) the requested variables depend on, and nothing else.",
     ["programs", "histories"],
     "all models, all subsets and orders of requested variables, all sample counts (including symbolic), all numbers of calls",
     "The tests request a few fixed models and check shapes and two or three values.",
     ["aemcmc/sample.py", "aemcmc/utils.py"],
     [("sample_prior", "aemcmc/sample.py"), ("get_rv_updates", "aemcmc/utils.py")])

prop("C14", "Graph rewriting for step discovery preserves the model's meaning",
     "Converting a model to the internal form used for discovering steps, and expanding that form again, preserves the model: the same random variables with the same distributions, parameters, sharing and names map back to the user's variables one to one, observed values keep belonging to their variables, and every deterministic expression evaluates to the same number. Folding broadcasting into an element-wise operation and unfolding it again is the identity.",
     ["programs"],
     "all model graphs: all element-wise expressions of random variables, inputs, shared variables and constants of any broadcastable shapes, with transposes",
     "The tests check the structure of the rewritten term for four small expressions and never compare its value.",
     ["aemcmc/rewriting.py", "aemcmc/utils.py"],
     [("construct_ir_fgraph", "aemcmc/rewriting.py"), ("local_elemwise_dimshuffle_subsume", "aemcmc/rewriting.py"),
      ("inline_SubsumingElemwise / SubsumingElemwise", "aemcmc/rewriting.py"), ("remove_constants", "aemcmc/utils.py")])

prop("C15", "Model descriptions are consistent or rejected",
     "A model description partitions its random variables into observed and unobserved ones exactly as declared, its variable-to-value and value-to-variable maps are inverse to each other, the value lists line up with the corresponding variable lists in declaration order, and the name table contains every variable and value once. A description in which some variable or value has no name, or two different ones share a name, is rejected with an error.",
     ["inputs"],
     "all descriptions: any number of variables, any subset observed, any deterministic variables, any names",
     "The test builds one valid description and two invalid ones.",
     ["aemcmc/utils.py"],
     [("ModelInfo.__post_init__", "aemcmc/utils.py")])

prop("C16", "Sampler stages group variables by step in sweep order",
     "A sampler's stages map every sampling step to the variables it updates: each sampled variable appears in exactly one stage, the one of the step that computes its update, stages appear in sweep order, and variables within a stage keep their order. The parameters a step needs are listed under that same step, and are the very inputs the compiled sweep requires.",
     ["inputs", "programs"],
     "all maps from variables to updates (any number of steps, any number of variables per step, any interleaving), all models",
     "The tests check one two-variable example.",
     ["aemcmc/types.py", "aemcmc/basic.py", "aemcmc/nuts.py"],
     [("Sampler.__post_init__", "aemcmc/types.py"), ("construct_sampler: parameters", "aemcmc/basic.py")])

prop("C17", "Reparametrisation relations preserve the distribution",
     "Rewriting a location-scale random variable to location plus scale times a standard variate, an inverse-gamma variable with shape one to the reciprocal of an exponential, or back, yields a variable with exactly the same distribution, including its shape and the independence of its elements. Variables outside the listed families are not rewritten.",
     ["inputs", "programs"],
     "all members of the location-scale family, all location, scale, size and dtype arguments including broadcasting ones, both directions where supported",
     "The tests check the syntactic form of one normal and one inverse-gamma term.",
     ["aemcmc/transforms.py"],
     [("location_scale_transform", "aemcmc/transforms.py"), ("invgamma_exponential", "aemcmc/transforms.py")])

prop("C18", "Building a sampler leaves the caller's model untouched",
     "Building a sampler or prior samples does not alter the caller's model, observation map or data: the same expressions evaluate to the same results afterwards, and building a second sampler from the same inputs gives a sampler with the same structure and distribution as the first.",
     ["histories", "programs"],
     "all models, all sequences of calls on the same model",
     "The tests build one sampler per model and never look at the model again.",
     ["aemcmc/basic.py", "aemcmc/rewriting.py", "aemcmc/nuts.py"],
     [("construct_ir_fgraph (clone=True)", "aemcmc/rewriting.py"), ("construct_sampler", "aemcmc/basic.py")])

prop("C19", "Samplers are reproducible from the seed",
     "Building the sampler for the same model with an equally seeded random stream gives, in any process, the same steps in the same order with the same parameter layout, and running it from the same initial values gives identical sequences of draws; all randomness comes from the given stream.",
     ["histories", "configurations"],
     "all models and seeds, all processes (hash seeds, memory layouts)",
     "The tests run each model once in one process with a fixed hash seed.",
     ["aemcmc/basic.py", "aemcmc/nuts.py", "aemcmc/gibbs.py", "aemcmc/ffbs.py", "aemcmc/dists.py"],
     [("rvs_without_samplers ordering", "aemcmc/basic.py"), ("srng usage in all steps", "aemcmc/gibbs.py")])

prop("C20", "Updates keep the shape and type of the variable they update",
     "Every update has the number of dimensions, data type and run-time shape of the variable it updates, and lies in that variable's support (positive, unit interval, simplex, non-negative integer), so that its output can be fed back as the next current value indefinitely.",
     ["programs", "inputs", "histories"],
     "all models and steps, all dimensions including length-one vectors, p > n and p <= n regressions, all current values",
     "The tests check a few shapes for one set of dimensions.",
     ["aemcmc/gibbs.py", "aemcmc/conjugates.py", "aemcmc/nuts.py", "aemcmc/dists.py", "aemcmc/ffbs.py"],
     [("all posterior steps", "aemcmc/gibbs.py"), ("conjugate relations", "aemcmc/conjugates.py"), ("transform_backward", "aemcmc/nuts.py")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
