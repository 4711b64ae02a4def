DV = "contract-based deductive verification"
LEVELS = {
    "C04": ("proof", DV + ": Gaussian-law contracts on the regression step and both samplers, discharged for all n, p by a normal-form/inverse-elimination prover and z3",
            "All sizes, both branches. Assumes real arithmetic, the op contracts in aevc/denote.py (cross-checked each run) and the affine-image lemma for normals. Bounded replays with forced normals give concrete counterexamples."),
}
NA = {}
LEVELS["C01"] = ("proof", DV + ": density contracts; the step's log-density minus log-prior minus log-likelihood is shown free of the updated variable, per element, by the normal-form prover",
    "For every hyper-parameter value, count and size in 16 model configurations covering the three conjugate families. The beta/negative-binomial law is a listed known finding. Assumes the density contracts (compared with scipy each run) and real arithmetic.")

LEVELS["C03"] = ("proof", DV + ": the four draws are matched to the conditionals of the half-Cauchy mixture at the newest values (density contracts, normal-form prover); marginalisation of the mixing variables is a separate obligation",
    "For every coefficient count, value and noise variance, on horseshoe_posterior and on the steps of six sampler configurations. Assumes density contracts, real arithmetic and the Gibbs-invariance lemma. Monte-Carlo one-step-from-stationarity replays.")
LEVELS["C05"] = ("proof", DV + ": Polya-Gamma shape/tilt contracts and the Gaussian-law contract given the weights, discharged by the normal-form/inverse-elimination prover and z3",
    "All n, p, both regression algorithms, both likelihoods, scalar/vector/latent prior scales, function and sampler level. The Polya-Gamma identity is assumed (Theorem 1 of Polson et al.); the op's Laplace transform is sampled each run.")
LEVELS["C06"] = ("proof", DV + ": loop contract of the CRT scan (body maps a count to its table law, one iteration per element, fresh draws) and density contract of the gamma update given the tables",
    "Counts of 0-3 dimensions, every size and value; dispersion update as a function and in five sampler configurations. The log(1-p) rate is a listed known finding; every other law is reported. Assumes the Stirling augmentation identity (compared numerically each run). Chi-square and one-step-from-stationarity replays.")
LEVELS["C07"] = ("proof", DV + ": loop contracts on both scans (forward state proportional to the filter for every n by induction, backward draw from filter_n(s) Gamma_{n+1}(s, s'), order of the result), normal-form prover and z3 for index ranges",
    "Every M, N >= 1, shared / per-time / single-matrix transitions. Assumes real arithmetic, the smoothing decomposition lemma and the op contracts; bounded replays compare the exact law of all sequences of the real code (recorded categorical probabilities) with enumeration, including underflow cases. The filter-range limit is a listed known finding.")
STUB = "The external NUTS kernel is replaced by its contract (an arbitrary position of the same shape). "
LEVELS["C08"] = ("proof", DV + ": nuts.step and its transform helpers under contract for every set of variables (pyvc with loop invariants, z3); per model, the graph given to the kernel equals the sum of the density contracts at the user's parameters and the newest values plus the log-Jacobian of the step's own back-transform, by the normal-form prover",
    STUB + "The density obligation covers every position, value and observation of about 130 models (battery, observation patterns, seeded random models) over 17 families; Dirichlet and multivariate normal latents and what the prover cannot show of the random models by bounded comparison with SciPy only. The construction code (variable, transform, placeholder, slice of the state and new value belong together; newest values read; caller's maps unchanged) is proved for every model, given the contracts of AePPL, AeHMC and Aesara. AeHMC's invariance is assumed.")
LEVELS["C09"] = ("other", DV + ": postcondition of construct_sampler (domains of the returned maps) discharged per model configuration; totality over all models is not decidable by this family",
    STUB + "One obligation per model configuration (battery of 24 models and their observation patterns); compilation and a sweep of every one of them, and of seeded random models, are bounded replays. The construction code itself is under contract for every model (pyvc, z3): construct_sampler gives every unobserved variable of the model one step and one initial value and looks up no missing variable; construct_ir_fgraph returns exactly the random variables the observed ones depend on.")
LEVELS["C10"] = ("proof", DV + ": frame (reads) and order contracts of each step of the sweep, discharged on the flattened graph by congruence",
    STUB + "For every value, per model configuration (24 models with observation patterns). Replays perturb inputs and compare with a sequential reference. The construction code itself is under contract for every model (pyvc, z3): the sweep order, the values given to each step, and the assembly of the gradient-based step.")
LEVELS["C11"] = ("proof", DV + ": frame contract (no generator of the model's own variables is reachable from any step, update or log-density), discharged on the flattened graph",
    STUB + "For every value, per model configuration. Replays replace the model's generators' states and require unchanged results.")
LEVELS["C12"] = ("proof", DV + ": ownership contract of generators (every draw of a sweep uses its own generator, and its update is the state after the last draw), discharged on the flattened graph",
    STUB + "Per model configuration. Statistical independence of NumPy's streams is assumed. Replays run repeated sweeps.")
LEVELS["C16"] = ("proof", DV + ": postcondition of Sampler.__post_init__ (stages partition the sampled variables by step in scan order), discharged per sampler",
    STUB + "Per model configuration. One listed known finding (bare operators of the same family share a stage). Sampler.__post_init__ is under contract for all step maps (pyvc, z3).")
LEVELS["C18"] = ("proof", DV + ": frame contract (the caller's variables, nodes, values and maps are not modified), discharged by comparing the object graph before and after the real call, per model configuration",
    STUB + "Every object reachable from the model, per model configuration. Real-kernel replays for two models. The construction code itself is under contract for every model (pyvc, z3): the maps a caller gives to construct_sampler, construct_ir_fgraph, replace_step_inputs and nuts.construct_sampler are not changed.")
LEVELS["C19"] = ("other", DV + ": the sampler is a function of the model and the seed: congruence of the graphs of two constructions discharged per model; the dependence on the process is explored over hash seeds",
    STUB + "Independence of the process's hash seed is bounded.")
LEVELS["C20"] = ("proof", DV + ": shape contracts of every closed-form step for all sizes (normal-form prover and z3) and type obligations per model configuration",
    STUB + "Shapes of closed-form steps for all sizes in 20 families; types with both float settings; supports and the gradient-based step by bounded replays.")
LEVELS["C02"] = ("other", DV + ": hypotheses of every specialised step as postconditions of the finders, discharged on the denotation of the user's model by the normal-form prover for each of 250 model structures around the supported ones",
    "For every value per structure; the structures (near misses, groups of several steps, the battery with observation patterns) are enumerated, not all. Replays compare the law each chosen step really has with SciPy's joint density of the model. For every graph (pyvc, z3): get_rv_dependents computes exactly the random nodes reached without another one in between (loop invariants), each of the six finders returns steps only for variables with the stated dependents, families, constants and dimensions (what `unify`/`run` matched being external), and sampler_finder records exactly the returned steps, once.")
LEVELS["C17"] = ("proof", DV + ": law of the rewritten term (affine image / reciprocal of one independent variate per element) against the location, scale and family of the original variable, normal-form prover; closure of each family under location and scale from its density contract",
    "For every location, positive scale and size in 14 configurations of 5 families and 5 of the inverse gamma. The inverse-gamma scale is a listed known finding. The reverse direction (yields no result today) is a bounded replay. Assumes density contracts (compared with scipy each run) and real arithmetic.")
LEVELS["C14"] = ("proof", DV + ": each fold/unfold step keeps the denotation of its expression for every axis pattern up to rank 4 and every size; the conversion and expansion of each model keep every parameter's denotation and the variable maps (normal-form prover, congruence, structural obligations)",
    "About 450 rule instances and 210 models, each for every value and size; random element-wise expressions by bounded evaluation only. remove_constants is under contract for every graph (pyvc, z3). Assumes the op contracts of aevc/denote.py and real arithmetic.")
LEVELS["C13"] = ("proof", DV + ": contract of get_rv_updates (domain and values of the collection) and of the loop sample_prior builds (body congruent to one joint draw from carried generators, final states as updates), discharged per request by congruence",
    "For every sample count >= 1, number of calls and parameter value, per request (subsets and orders of the variables of 24 models and special cases). Assumes aesara.scan's contract and NumPy's streams. Zero samples at run time is a listed known finding. For every request (pyvc, z3): get_rv_updates collects exactly the updates of the generators of the requested variables and sample_prior passes them to the loop. Replays compare with repeated joint draws.")
LEVELS["C15"] = ("proof", DV + ": contract of ModelInfo.__post_init__; verification conditions generated from the function's source by symbolic execution (comprehensions and loops as quantified definitions) and discharged by z3 for all descriptions",
    "Every description: any number of variables, observed subset, deterministic variables and names. Assumes identity comparison of variables and the executor's semantics of the Python constructs used. Exhaustive naming patterns and random descriptions over real variables as bounded replays.")
