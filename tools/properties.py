"""Writes properties.jsonl (run from /verif)."""
import json

P = []


def prop(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=["src/mfpml/" + f for f in files],
                     mechanism=[dict(name=n, where="src/mfpml/" + w)
                                for n, w in mech],
                     observe_at=observe, hook_needed=None)))


DS = "design_of_experiment/sf_samplers.py"
DM = "design_of_experiment/mf_samplers.py"
PS, PM, PC = ("problems/sf_functions.py", "problems/mf_functions.py",
              "problems/sf_cons_functions.py")
PF = "problems/functions.py"
EA = "optimization/evolutionary_algorithms.py"
GP = "models/gaussian_process.py"
MG = "models/mf_gaussian_process.py"
HK = "models/hierarchical_kriging.py"
SK = "models/scale_kriging.py"
CK = "models/co_kriging.py"
KE, BA = "models/kernels.py", "models/basis_functions.py"
AU, AC, AM = ("optimization/sf_uncons_acqusitions.py",
              "optimization/sf_cons_acqusitions.py",
              "optimization/mf_acqusitions.py")
BU, BC, BM = ("optimization/sf_uncons_bo.py", "optimization/sf_cons_bo.py",
              "optimization/mf_uncons_bo.py")
VI = "visualization/samplers_visualization.py"
DA = "core/data.py"

# ---------------------------------------------------------------- design
prop("C01", "Samplers deliver the requested number of points, all in the design box",
     "A sampler returns, for every fidelity it is asked for, exactly the requested number of points with one column per design variable, and every coordinate lies between the lower and upper bound of that variable in the design space of that fidelity (nested designs have one common design space). The sampler object holds exactly the points it returned last, and saving it writes a file (the given name plus .pickle) from which exactly these points are read back. The fixed-point sampler returns the given point repeated the requested number of times.",
     ["inputs", "configurations", "histories"],
     "every sampler, every box (1 to 8 variables, integer or float bounds, negative, per-fidelity boxes), every count, every seed including none, and every sequence of requests on one object",
     "The tests draw one design per sampler in one box with one seed and compare its shape.",
     [DS, DM],
     [("scaling into the box", DS + ":SingleFidelitySampler.scale_samples"),
      ("per-fidelity scaling", DM + ":MFLatinHyperCube._get_non_nested_samples"),
      ("saving", DS + ":SingleFidelitySampler.save_data")],
     ["get_samples return value", "samples/data attribute", "pickle file"])
prop("C02", "A design is determined by its arguments and seed, not by history",
     "Requesting a design with the same design space, counts and seed gives identical points whatever was drawn before, by whichever object, and whatever the state of the global random generator; a different seed gives different points. Drawing a design changes neither the design space nor the list of counts of the caller nor any design returned earlier. Leaving out the seed is the same as giving the documented default seed 123456.",
     ["histories", "inputs", "configurations"],
     "every interleaving of requests with different arguments on shared and fresh sampler objects, with the global random generator disturbed in between",
     "The tests call each sampler once; none compares two draws made under different histories.",
     [DS, DM],
     [("seeded generators", DS + ":LatinHyperCube.get_samples, RandomSampler.get_samples, SobolSequence.get_samples"),
      ("seeded nested subset", DM + ":MFLatinHyperCube._get_nested_samples"),
      ("seed per fidelity", DM + ":MFLatinHyperCube._get_non_nested_samples")],
     ["get_samples return value", "caller's arguments after the call"])
prop("C03", "Latin hypercube strata and Sobol low-discrepancy structure hold",
     "In a Latin hypercube design of n points every one of the n equal slices of every variable contains exactly one point, for the single-fidelity sampler, for every level of a non-nested multi-fidelity design (whose levels are drawn independently of each other), and for the lowest fidelity of a nested one. A Sobol design is a stretch of one scrambled sequence fixed by the seed: a shorter design is a prefix of a longer one, skipping k points drops the first k, the default skip of a design space given as an array is the number of variables, and the first 2^m points of the unskipped sequence have one point in each of the 2^m equal slices of every variable. Every level of a multi-fidelity Sobol design is a prefix of the same sequence, in its own box, and a design in any box is the unit-box design of the same seed and size, mapped to that box.",
     ["inputs", "configurations"],
     "every number of points, dimension, box, seed, skip and number of fidelities",
     "The tests check shapes only; stratification must hold for each count and dimension.",
     [DS, DM],
     [("Latin hypercube", DS + ":LatinHyperCube.get_samples"),
      ("Sobol skip", DS + ":SobolSequence.get_samples"),
      ("multi-fidelity levels", DM + ":MFLatinHyperCube._get_non_nested_samples, MFSobolSequence._get_non_nested_samples")],
     ["get_samples return value"])
prop("C04", "Nested designs are subsets; levels are ordered high to low fidelity",
     "A multi-fidelity design lists its levels from the highest fidelity (fewest points) to the lowest, level i having the i-th requested number of points. In a nested design every level is a subset, without repetition, of the level below it. A request for more points at a higher fidelity than at a lower one is refused with an error and leaves the previously drawn design in place.",
     ["inputs", "configurations", "histories"],
     "every tuple of counts for two to four fidelities, every sampler, seed and box, including refused requests in the middle of a sequence of requests",
     "The tests draw two-level designs with one pair of counts and check the shapes.",
     [DM],
     [("count rule", DM + ":MultiFidelitySampler._mf_samples_rules"),
      ("nested subset", DM + ":MFLatinHyperCube._get_nested_samples, MFSobolSequence._get_nested_samples"),
      ("level order", DM + ":MultiFidelitySampler.get_samples")],
     ["get_samples return value", "exception", "data attribute"])

# -------------------------------------------------------------- problems
prop("C05", "Test problems compute their published formulas at every fidelity",
     "Every test problem (single-fidelity, constrained and multi-fidelity) returns, at every point of its domain including the boundary, the finite value of the published formula it is named after, for the objective, each constraint and each fidelity. The parameters of Ackley (a, b, c) and Thevenot (m, beta) are honoured. Calling a multi-fidelity problem with a list of designs evaluates the first with the high-fidelity and the second with the low-fidelity function.",
     ["inputs", "configurations"],
     "every point of each domain, here every node of a full-factorial grid with boundary nodes and off-grid levels, for every problem, fidelity and constraint",
     "The tests evaluate two of the twenty-odd functions at a handful of points.",
     [PS, PC, PM],
     [("single-fidelity formulas", PS + ":*.f"), ("constraints", PC + ":*.f, *.f_cons"),
      ("fidelities", PM + ":*.hf, *.lf, MultiFidelityFunctions.__call__")],
     ["return value of f, f_cons, hf, lf and of calling the problem"])
prop("C06", "Problem evaluation is row-wise, pure, and blind to dtype and layout",
     "Evaluating a problem on n points gives an n-by-1 array (n by the number of constraints for constraints) whose i-th row is the value of the i-th point evaluated on its own, independent of the other points and their order. Integer and float designs, and designs stored as views or in Fortran order, give the same values, as does one point given as a vector where the problem accepts one. Evaluation never changes its input and gives the same answer every time.",
     ["inputs", "histories"],
     "every problem and fidelity, every batch of up to three points over a set of corner, centre and interior points, every dtype and memory layout, repeated and interleaved calls",
     "The tests evaluate float batches once.",
     [PS, PC, PM],
     [("vectorised formulas", PS + ":*.f"), ("row loops", PM + ":mf_Hartman3.hf, mf_Discontinuous.lf"),
      ("shifted copies", PM + ":mf_CurrinExp.lf")],
     ["return value and argument after the call"])
prop("C07", "Declared optimum, minimiser and domain of a problem are true",
     "Where a problem declares its optimum, every declared minimiser has one value per variable, lies in the declared domain, satisfies the constraints up to the rounding of the published digits, and has the declared optimal value; no feasible point of the domain is better than the declared optimum beyond that rounding. The domain has one (lower, upper) row per variable with lower below upper, and agrees with the named design space where there is one.",
     ["inputs", "configurations"],
     "every point of the domain (a full-factorial grid refined around its best nodes) of every problem and, for the variable-dimension problems, every dimension",
     "No test evaluates a problem at its declared minimiser.",
     [PS, PC, PM, PF],
     [("metadata", PS + ":class attributes; Ackley/Thevenot.__update_parameters"),
      ("metadata", PM + ":class attributes"), ("accessors", PF + ":Functions._optimum, _optimum_variable, _input_domain")],
     ["optimum, optimum_scheme, input_domain, num_dim and the accessor properties"])
prop("C08", "Problem objects are independent; unsupported dimensions are refused",
     "Constructing or using one problem object never changes the dimension, domain, optimum, minimiser, costs or function values of another object of the same or another class. Problems of fixed dimension refuse every other dimension, and variable-dimension problems refuse dimensions that are not positive integers. The cost ratio of a multi-fidelity problem is its high-fidelity cost over its low-fidelity cost, rounded.",
     ["histories", "configurations"],
     "every sequence of up to three constructions over all problem classes and dimensions 0 to 9, evaluated in every order",
     "The tests build one object per problem.",
     [PS, PC, PM, PF],
     [("dimension guard", PS + ":*.is_dim_compatible"), ("instance metadata", PS + ":Ackley.__update_parameters, Thevenot.__update_parameters"),
      ("accessors", PF + ":Functions._get_dimension")],
     ["constructor outcome", "attributes and accessor properties of all live objects"])

# ------------------------------------------------------------------- EAs
prop("C09", "PSO and DE evaluate whole populations inside the box, within budget",
     "Every candidate that particle swarm or differential evolution passes to the objective lies inside the given box, including after candidates have left it. The objective is called exactly once for the initial population and once per generation carried out, each time with the whole population as one array of population size by dimension, together with the extra arguments supplied by the caller; at most the given number of generations is carried out. The caller's box is not changed.",
     ["inputs", "configurations", "histories"],
     "every population size, dimension, box, strategy, rate setting, random stream and every outcome of the objective comparisons (all value assignments from a small alphabet)",
     "The tests run each algorithm once on Ackley and look at the final optimum.",
     [EA],
     [("bound repair", EA + ":EABase._loc_cons"), ("initial population", EA + ":EABase._location_initialzer"),
      ("evaluation", EA + ":PSO.__update_obj, DE.__update_obj")],
     ["arguments of every objective call"])
prop("C10", "Reported optimum and history of PSO/DE are truthful",
     "The best value returned is the smallest objective value observed in the run and the best point returned is a point at which the objective was evaluated with that value; the result record repeats both, also when the run stopped early. The history has one entry per carried-out generation plus the initial one, never increases, and entry g is the smallest value observed up to generation g, at a point that has it. The recorded populations and responses are those the algorithm held in each generation: for swarm the evaluated particles, for differential evolution the surviving parents.",
     ["inputs", "configurations", "histories"],
     "every assignment of objective values from a small ordered alphabet (ties and negative values included) to every evaluation of runs with small populations and generations, every stop generation",
     "The tests look at the final best value of two runs on a smooth function without ties or early stopping.",
     [EA],
     [("generation best", EA + ":PSO.__update_gen_optimum, DE.__update_gen_optimum"),
      ("result record", EA + ":PSO.run_optimizer, DE.run_optimizer"),
      ("greedy selection", EA + ":DE.__update_obj")],
     ["return value of run_optimizer", "objective calls"])
prop("C11", "PSO and DE move their populations by the published rules",
     "In differential evolution each trial mixes the parent's components with components of base + F (x_b - x_c), where the base is a random other member (or the best point so far for the best strategy), b and c are other members than the parent, at least one component comes from the mutant, and components leaving the box are redrawn in it; a trial replaces its parent exactly when it is strictly better. In particle swarm each step is the weighted previous step plus the pulls towards the particle's own best and the swarm's best, each component limited to the maximum velocity, and components leaving the box are redrawn in it; a particle's best is updated when the new value is not worse.",
     ["inputs", "configurations", "histories"],
     "every population size, strategy, rate setting and every outcome of the objective comparisons within the bound; random draws are left free and the rule is checked as an existential over them",
     "A wrong update rule still converges on the smooth test function, so the tests pass.",
     [EA],
     [("mutation and crossover", EA + ":DE.__update_pop"), ("selection", EA + ":DE.__update_obj"),
      ("velocity and position", EA + ":PSO.__update_pop, PSO.__velocity_cons"),
      ("own best", EA + ":PSO.__update_pop_optimum")],
     ["populations passed to the objective, generation by generation"])
prop("C12", "PSO/DE runs stop on the target and are independent of earlier runs",
     "With a stopping value the run ends after the first generation whose best value so far is below it and not before; without one, all generations are carried out. A run depends only on its arguments and the state of the global random generator: the same seed gives the same result, and an optimizer object that has been used before, on whichever problem, gives the same result as a fresh one. Printing progress or saving step results changes nothing else.",
     ["histories", "inputs", "configurations"],
     "every sequence of up to three runs on one object over problems of different dimension, box and stopping value, and every generation at which the target can be reached",
     "The tests use each optimizer object once.",
     [EA],
     [("stop test", EA + ":PSO.run_optimizer, DE.run_optimizer"),
      ("per-run state", EA + ":PSO.run_optimizer, DE.run_optimizer")],
     ["return value of run_optimizer", "number of objective calls"])

# ---------------------------------------------------------------- models
prop("C13", "Gaussian process prediction equals the universal-kriging posterior",
     "For given hyper-parameters the predicted mean and standard deviation of a trained Gaussian process equal those of universal kriging in closed form (squared-exponential correlation on inputs scaled to the box, generalised least-squares trend, concentrated process variance, observation noise added to the predicted variance), in the units of the data. This holds for constant, linear and quadratic trends, every noise level, and every prediction point inside or outside the data.",
     ["inputs", "configurations"],
     "every combination of trend, noise, hyper-parameter, training set and prediction batch in the alphabet, against an independently written dense reference",
     "The only test checks the shape of one prediction.",
     [GP, KE, BA],
     [("posterior", GP + ":GaussianProcessRegression.predict"),
      ("factors", GP + ":GaussianProcessRegression._update_kernel_matrix"),
      ("scaling", GP + ":normalize_input, normalize_output")],
     ["return value of predict"])
prop("C14", "Prediction is a pure function of the trained model",
     "Predicting never changes a trained model: repeating a prediction, in any order and interleaved with predictions at other points, with or without standard deviation or at another fidelity, gives the same mean and standard deviation every time, the mean is the same with and without standard deviation, and a batch gives the same as its points one by one. Neither training nor predicting changes the arrays passed in, and changing those arrays afterwards does not change the model.",
     ["histories", "inputs"],
     "every sequence of predictions up to the depth bound for all four models (single-fidelity, hierarchical, scaled, co-kriging), every noise setting",
     "The tests predict once per model.",
     [GP, HK, SK, CK],
     [("no state written", GP + ":predict; " + HK + ":predict; " + SK + ":predict; " + CK + ":predict"),
      ("own copy of the data", GP + ":train; " + CK + ":train")],
     ["return values of predict and predict_lf", "arrays passed in"])
prop("C15", "A trained model depends on its last training data only",
     "A model trained several times predicts exactly as a fresh model trained only on the last data, whatever the number of samples, the values or the noise of the earlier trainings, and whether or not it predicted in between; this includes the re-estimated noise when no noise prior is given. Two models never influence each other's predictions.",
     ["histories", "inputs", "configurations"],
     "every sequence of up to three trainings over data sets of different size, scale and ordering, for all four models with known, zero and estimated noise",
     "The tests train every model once.",
     [GP, HK, SK, CK],
     [("training", GP + ":train"), ("noise prior", GP + ":_update_kernel_matrix; " + HK + ":_update_parameters; " + CK + ":train"),
      ("multi-fidelity training", MG + ":train, _train_lf")],
     ["return values of predict and predict_lf after each training"])
prop("C16", "Models respect the symmetries of the data",
     "Reordering the training samples (within a fidelity) does not change any prediction; multiplying all responses, and the noise level, by a positive factor and adding a constant to the responses transforms the mean in the same way and multiplies the standard deviation by the factor; and shifting or stretching design space and samples together leaves predictions at the moved points unchanged. This holds for the single-fidelity model and all multi-fidelity models.",
     ["inputs", "configurations"],
     "every permutation of small training sets, every affine map in the alphabet, all four models at fixed hyper-parameters",
     "The tests have no second data set to compare with.",
     [GP, HK, SK, CK],
     [("input scaling", GP + ":normalize_input; " + MG + ":normalize_input"),
      ("output scaling", GP + ":normalize_output; " + MG + ":normalize_hf_output")],
     ["return value of predict"])
prop("C17", "Hyper-parameters maximise the likelihood inside their bounds",
     "Training minimises the negative log marginal likelihood (concentrated over the process variance when there is no noise, with unit scaled process variance otherwise) over the kernel's log-parameter bounds, extended by the noise range when noise is to be estimated; the kernel then carries ten to the chosen parameters. With the built-in search the chosen parameters lie inside the bounds and are the best of all its restarts, of which there are the requested number plus one; with a user-supplied optimizer its answer is used as it is. The objective handed to an optimizer accepts one parameter vector or a batch of them and gives one value each.",
     ["inputs", "configurations", "fault_sequences"],
     "every answer sequence of the scripted search over the restarts (all orderings of likelihood values, ties included), every noise setting, kernel bound and batch, for every model with its own search",
     "The tests train once and check a shape; a search that keeps the last or the worst restart passes.",
     [GP, HK, CK, KE],
     [("search", GP + ":_hyper_paras_optimization; " + HK + ":_optHyp; " + CK + ":_optHyp, _GP._hyper_paras_optimization"),
      ("objective", GP + ":_logLikelihood; " + HK + ":_logLikelihood; " + CK + ":_logLikelihood")],
     ["arguments given to the optimizer", "kernel parameters after training", "predictions"])
prop("C18", "Noise-free models interpolate; uncertainty is zero there and never negative",
     "With zero noise every model reproduces its training responses (single-fidelity at all samples, multi-fidelity at the high-fidelity samples) with standard deviation zero there (in scaled kriging, which adds the low-fidelity variance, where these samples were evaluated at low fidelity too), up to the numerical jitter. The standard deviation is a finite non-negative number everywhere, is at least the noise level when there is noise, and noise enters the prediction in the units of the data. Predictions and standard deviations always are arrays with one row per prediction point and one column.",
     ["inputs", "configurations"],
     "every training set, hyper-parameter, noise level and prediction batch in the alphabet, all four models",
     "The tests do not compare a prediction with a response.",
     [GP, HK, SK, CK],
     [("interpolation", GP + ":predict"), ("variance clipping", GP + ":predict; " + HK + ":predict; " + CK + ":predict")],
     ["return value of predict"])
prop("C19", "Hierarchical kriging prediction equals its closed form",
     "For given hyper-parameters hierarchical kriging predicts, at high fidelity, the closed-form kriging posterior whose trend is the low-fidelity prediction times a generalised least-squares factor, with the matching standard deviation (epistemic variance plus noise variance), in the units of the high-fidelity data.",
     ["inputs", "configurations"],
     "every combination of data sets, hyper-parameters at both fidelities, noise and prediction batch in the alphabet, against an independent dense reference",
     "The only test checks the shape of one prediction.",
     [HK, MG],
     [("posterior", HK + ":HierarchicalKriging.predict"), ("factors", HK + ":_update_parameters")],
     ["return value of predict"])
prop("C20", "Co-kriging prediction equals its closed form",
     "For given hyper-parameters and scale factor co-kriging predicts, at high fidelity, the closed-form autoregressive co-kriging posterior of the joint low- and high-fidelity covariance with generalised least-squares mean, and the matching standard deviation (epistemic variance plus noise variance), in the units of the high-fidelity data, where a given noise level is understood in these units.",
     ["inputs", "configurations"],
     "every combination of data sets, hyper-parameters, scale factor, noise and prediction batch in the alphabet, against an independent dense reference",
     "The only test checks the shape of one prediction.",
     [CK],
     [("joint covariance", CK + ":CoKriging._update_parameters"), ("posterior", CK + ":CoKriging.predict")],
     ["return value of predict"])
prop("C21", "Scaled kriging is the scaled low-fidelity model plus a discrepancy model",
     "Scaled kriging predicts the scale factor times the low-fidelity prediction plus the prediction of a discrepancy model trained on the high-fidelity responses minus the scaled low-fidelity predictions; its variance is the squared factor times the low-fidelity variance plus the discrepancy variance. The factor is one unless it is to be optimised; then it is the minimiser over the given bounds of the chosen criterion (squared error, or bumpiness). Low-fidelity and discrepancy models supplied by the user are the ones trained and used.",
     ["inputs", "configurations"],
     "every combination of data sets, factor setting and method, supplied or built-in sub-models and prediction batch in the alphabet",
     "The tests check shapes, and misspell the option that would switch the factor on.",
     [SK],
     [("prediction", SK + ":ScaledKriging.predict"), ("discrepancy", SK + ":_getDisc, _train_hf"),
      ("factor", SK + ":_rho_optimize, _eval_error, _eval_bumpiness")],
     ["return value of predict", "scale factor", "calls on supplied sub-models"])
prop("C22", "Low-fidelity predictions come from the low-fidelity data alone",
     "The low-fidelity prediction (mean and standard deviation) of a multi-fidelity model is that of the single-fidelity Gaussian process trained on the low-fidelity samples, in the units of the low-fidelity data, and does not change when the high-fidelity samples or responses do (for co-kriging, whose noise is measured in the high-fidelity spread, this is claimed without noise). The model reports the number and the values of the samples of each fidelity it was trained on, the first list entry being high fidelity and the second low fidelity.",
     ["inputs", "histories", "configurations"],
     "every pair of low- and high-fidelity data sets and hyper-parameters in the alphabet, for hierarchical, scaled and co-kriging (for co-kriging with noise, the process with the noise in the units of the high-fidelity spread)",
     "No test looks at the low-fidelity prediction of a multi-fidelity model against the data.",
     [MG, HK, SK, CK],
     [("low-fidelity training", MG + ":_train_lf, predict_lf; " + CK + ":predict_lf"),
      ("sample accessors", MG + ":_get_sample_hf, _get_sample_lf, _num_xh, _num_xl")],
     ["return value of predict_lf", "sample accessors"])
prop("C23", "Kernel and trend functions are the stated mathematical functions",
     "The correlation matrix is exp of minus the theta-weighted squared distance (theta being ten to the log-parameter), symmetric, one on the diagonal and positive definite for distinct points, between 0 and 1, with rows for the first and columns for the second argument, and the same whether the parameters are set or passed in. Bounds are reported per parameter as given. The constant, linear and quadratic trends return, row by row, 1; 1 and the coordinates; and additionally all products of two coordinates once each; the Kronecker delta of two sets is one exactly where rows are equal.",
     ["inputs", "configurations"],
     "every pair of point sets over a small lattice up to three points, dimensions one to four, every parameter vector in the alphabet",
     "The tests check the first column of the trends in one dimension and nothing of the kernel.",
     [KE, BA],
     [("correlation", KE + ":RBF.__call__, RBF.get_kernel_matrix, RBF.set_params"),
      ("trends", BA + ":Ordinary, Linear, Quadratic")],
     ["return values"])

# ----------------------------------------------------------- acquisition
prop("C24", "EI, PI and LCB return their defining values, to be minimised",
     "For every surrogate and every batch of points, expected improvement and probability of improvement return minus, and the lower confidence bound plus, the defining expression of predicted mean, standard deviation and best observed response, one value per point in an n-by-1 array; the two factors of the bound are honoured. Expected improvement and its probability are never negative, and vanish where the standard deviation is zero and the mean is worse than the best response.",
     ["inputs", "configurations"],
     "every combination of mean, standard deviation (zero included) and best response in the alphabet through scripted surrogates, and trained surrogates, batches of one to five points",
     "The tests check the shape of one batch.",
     [AU],
     [("criteria", AU + ":LCB.eval, EI.eval, PI.eval")],
     ["return value of eval"])
prop("C25", "Constrained EI is EI times the probability of feasibility, per point",
     "Constrained expected improvement returns minus the expected improvement over the best sampled objective times the product over all constraints of the probability that the constraint value is at most zero, one value per point of the batch, whatever the number of constraints. The probability of feasibility is between 0 and 1 and decreases when a constraint prediction grows.",
     ["inputs", "configurations"],
     "every combination of objective and constraint predictions in the alphabet, one to three constraints, batches of one to five points",
     "The tests use the criterion one point at a time inside one optimisation.",
     [AC],
     [("criterion", AC + ":CEI.eval, CEI.ei, CEI.pof")],
     ["return value of eval, ei and pof"])
prop("C26", "Multi-fidelity acquisitions return their defining values per fidelity",
     "Augmented EI, variable-fidelity EI, variable-fidelity LCB and extended PI return for every point and fidelity the (negated) value of their published definition: the high-fidelity criterion weighted, for the low fidelity, by the correlation between fidelities and the cost ratio (augmented EI, extended PI, the latter also by the sample density), or with the low-fidelity uncertainty scaled by the trend factor (variable-fidelity EI) or by the cost ratio (variable-fidelity LCB). Every point of a batch gets the value it gets on its own. Unknown fidelities, and models without trend factor for variable-fidelity EI, are refused.",
     ["inputs", "configurations"],
     "every combination of predictions at both fidelities, cost ratio, best value and fidelity in the alphabet, through scripted and trained surrogates, batches of one to four points",
     "The tests only run the loops and look at the final best value.",
     [AM],
     [("criteria", AM + ":AugmentedEI.eval, VFEI.eval, VFLCB.eval, ExtendedPI.eval"),
      ("correlation", AM + ":AugmentedEI.corr, ExtendedPI.corr")],
     ["return value of eval"])
prop("C27", "Querying an acquisition returns the in-box minimiser and its fidelity",
     "Querying an acquisition searches the whole design box of the surrogate, and only that, with the acquisition evaluated on the given surrogate(s), and returns the point the search found; a user-supplied optimizer is the one used, and its answer is returned. A multi-fidelity query searches both fidelities and returns the point of the fidelity whose criterion is smaller together with that fidelity, the high fidelity on ties. Querying does not change the surrogate.",
     ["inputs", "configurations", "fault_sequences"],
     "every acquisition and surrogate, every answer of the scripted search at both fidelities (all orderings and ties), built-in and user-supplied optimizer",
     "The tests only run complete loops; a query that swaps fidelities or ignores the optimizer still finds the easy optimum.",
     [AU, AC, AM],
     [("search", AU + ":SFUnConsAcq.query; " + AC + ":SFConsAcq.query"),
      ("fidelity choice", AM + ":AugmentedEI.query, VFEI.query, VFLCB.query, ExtendedPI.query")],
     ["return value of query", "arguments given to the search"])

# -------------------------------------------------------------------- BO
prop("C28", "Bayesian optimization reports the best of exactly what it evaluated",
     "Unconstrained Bayesian optimization evaluates the problem once on the requested number of initial points and then once per iteration at the point the acquisition proposed; its record of samples and responses is exactly that sequence. After initialization and after every iteration the reported best value is the smallest response so far and the best point a sample that has it, the histories have one entry for each, and the surrogate offered to the acquisition is trained on all evaluations so far.",
     ["histories", "inputs", "configurations"],
     "every sequence of objective values from a small ordered alphabet (ties included) and of proposed points, over initial designs and iterations up to the bound, including several runs in a row on one object",
     "The tests run the loop on one smooth function and look at the final best value.",
     [BU],
     [("loop", BU + ":BayesUnConsOpt.run_optimizer"), ("bookkeeping", BU + ":BayesUnConsOpt._update_para, _initialization")],
     ["return value of run_optimizer", "best, best_x, histories, sample, response", "surrogate passed to the acquisition"])
prop("C29", "Constrained optimization reports the best feasible evaluated point",
     "Constrained Bayesian optimization reports as best the smallest objective value among the evaluated points that satisfy all constraints, at a point that is itself feasible and has that value, and infinity with no point while none is feasible; this holds after initialization and after every iteration, and the histories have one entry for each. Objective and constraint records are exactly the evaluations made, in order, and every surrogate offered to the acquisition, one per constraint, is trained on all of them.",
     ["histories", "inputs", "configurations"],
     "every assignment of objective values and feasibility patterns (ties between feasible and infeasible points, constraint value exactly zero, no feasible point) to initial and proposed points, one to three constraints",
     "The tests run the loop once on one problem with a loose bound on the result.",
     [BC],
     [("feasible best", BC + ":BayesConsOpt._initialization, _update_para"), ("loop", BC + ":BayesConsOpt.run_optimizer")],
     ["return value of run_optimizer", "best, best_x, histories, records", "surrogates passed to the acquisition"])
prop("C30", "Multi-fidelity optimization evaluates and ranks the chosen fidelity",
     "Multi-fidelity Bayesian optimization evaluates each proposed point with the function of the fidelity the acquisition chose, only that one, and appends point and response to the records of that fidelity; the order of fidelities is recorded. The reported best value is the smallest high-fidelity response so far, at a point that has it; low-fidelity evaluations never change it. The histories have one entry for initialization and each iteration, and the surrogate offered to the acquisition is trained on all evaluations of both fidelities.",
     ["histories", "inputs", "configurations"],
     "every sequence of fidelity choices and of response values from a small ordered alphabet up to the bound, for all surrogate kinds",
     "The tests look at the final best value of four runs.",
     [BM],
     [("routing", BM + ":mfUnConsBayesOpt.run_optimizer"), ("best", BM + ":mfUnConsBayesOpt._update_para, _initialization")],
     ["problem calls", "best, best_x, histories, fidelity order, sample, response", "surrogate passed to the acquisition"])
prop("C31", "Bayesian optimization loops stop exactly when budget or target is reached",
     "Each of the three Bayesian optimization loops carries out iterations until the iteration budget of the call is used up or the error drops below the tolerance, and no further: the error is the relative distance of the best (feasible, high-fidelity) value to the known optimum, the absolute distance when the optimum is zero, and never stops the loop when no optimum is known or nothing feasible has been found. If the target is met at the start no point is evaluated. Running again continues from the state reached, so that n and then m iterations equal n+m.",
     ["histories", "inputs", "configurations"],
     "every position at which the target can be met, every budget up to the bound, known, zero, negative and unknown optimum, every split of the budget over several calls, for the three loops",
     "The tests use one budget and tolerance each.",
     [BU, BC, BM],
     [("stop test", BU + ":run_optimizer, __update_error; " + BC + ":run_optimizer, __update_error; " + BM + ":run_optimizer, __update_error")],
     ["number of acquisition queries and problem calls", "state after each call"])
prop("C32", "Bayesian optimization is reproducible and its objects are independent",
     "Building a Bayesian optimization object with given problem, acquisition, sizes and seed and running it right away goes through the same samples whatever was executed before; the initial design is the Latin hypercube design of that seed in the problem's box (per fidelity), and another seed gives another. Objects do not share records: running one leaves the samples, responses, best values and histories of the others unchanged, and neither construction nor running changes the caller's arguments or the initial design kept by the object.",
     ["histories", "configurations", "inputs"],
     "every interleaving of construction and running of up to three objects of the three loops, with the global random generator disturbed between construction steps",
     "The tests build each loop once.",
     [BU, BC, BM],
     [("seeding", BU + ":BayesUnConsOpt.__init__; " + BC + ":BayesConsOpt.__init__; " + BM + ":mfUnConsBayesOpt.__init__"),
      ("initial design", BU + ":_initialization; " + BC + ":_initialization; " + BM + ":_initialization")],
     ["init_sample, sample, response, best, histories of all objects"])

# ---------------------------------------------------------------- others
prop("C33", "Sampler plots show exactly the drawn points and write only where told",
     "Plotting a sampler shows exactly the points it holds, in one, two and three variables, for every fidelity of a multi-fidelity design as a separately labelled series; a sampler without points and more than three variables are refused. A file is written only when saving is asked for, under the given name, and plotting changes neither the sampler nor its points.",
     ["inputs", "configurations", "histories"],
     "every sampler kind, dimension one to four, number of fidelities, count and save setting, in sequences of plots",
     "The repository has no test of the plots.",
     [VI],
     [("plots", VI + ":SFSamplerVisualization.plot_samples, MFSamplerVisualization.plot_samples")],
     ["artists handed to the plotting library", "files written", "exceptions"])
prop("C34", "The multi-fidelity array container mirrors the data it was given last",
     "The container gives back, level by level and in order, the arrays it was given last, its first level as high fidelity, their number and their sizes, whether they were given at construction or set later; containers do not influence each other.",
     ["histories", "inputs"],
     "every sequence of up to four construction and update steps over data sets of one to four levels on two containers",
     "The repository has no test of the container.",
     [DA],
     [("container", DA + ":mfArray.__init__, __call__, __getitem__, n_levels, hf, size")],
     ["indexing, hf, n_levels, size"])

prop("C35", "Copies and pickles behave as the original and are independent of it",
     "A deep copy or pickle of a model, sampler, problem, kernel, acquisition, optimizer or optimization loop, taken at any time, behaves from then on exactly as the original would, and what is done to one never shows in the other. An optimization loop copied or pickled after any iteration and continued goes through the same remaining iterations as one that was never copied.",
     ["histories", "configurations"],
     "every sequence of trainings and predictions on original and copy up to the bound, copies taken at every point of the history and of a run",
     "No test copies an object.",
     [GP, MG, HK, SK, CK, KE, PF, BU, BC, BM, EA, DS, DM, DA],
     [("model state", GP + ":GaussianProcess.train; " + MG + ":MultiFidelityGP.train"),
      ("wrapped objectives", PF + ":FunctionWrapper"),
      ("loop state", BU + ":BayesUnConsOpt; " + BC + ":BayesConsOpt; " + BM + ":mfUnConsBayesOpt")],
     ["predictions, parameters and likelihood of original and copy", "records of the loops"])
prop("C36", "Model updates, optimizer changes and accessors follow the training history",
     "Adding samples to the plain Gaussian process of co-kriging equals training it on all samples together, whatever became of the caller's arrays in between. Replacing the hyper-parameter optimizer of a model takes effect with the next training, which uses that optimizer and no other, leaves the current predictions alone, and gives what a model built with it from the start gives. The accessors of samples, parameters and scale factors tell the state of the last training.",
     ["histories", "inputs", "configurations"],
     "every sequence of trainings, sample additions and optimizer replacements up to the bound, on every model offering them",
     "No test updates a model or replaces its optimizer.",
     [CK, GP, MG, HK, SK],
     [("sample addition", CK + ":_GP.update_model"),
      ("optimizer replacement", GP + ":GaussianProcess.change_optimizer; " + MG + ":MultiFidelityGP._update_optimizer_hf, _update_optimizer_lf"),
      ("accessors", MG + ":MultiFidelityGP._get_sample_hf, _get_sample_lf")],
     ["predict", "optimizer calls", "accessors"])
prop("C37", "A failing evaluation, query or training leaves consistent records",
     "When an objective or constraint evaluation, an acquisition query, a surrogate training or a population evaluation raises, the exception reaches the caller, and the records of the optimization loop hold exactly the evaluations completed, points and responses in step. Running the loop again (after a failed surrogate training, once the surrogate is trained on the records) carries on as if the failed attempt had not been made, so that the final records equal those of an undisturbed run; a model whose training failed, a criterion whose query failed and an optimizer whose run failed give, used again, the results of a fresh one.",
     ["crash_points", "histories"],
     "up to two failures at every crash point of a run, for every loop, model, optimizer and criterion, followed by carrying on",
     "The tests contain no failing function.",
     [BU, BC, BM, GP, MG, HK, SK, CK, EA, AU, AC, AM],
     [("record update", BU + ":BayesUnConsOpt._update_para; " + BC + ":BayesConsOpt._update_para; " + BM + ":mfUnConsBayesOpt._update_para"),
      ("loop", BU + ":run_optimizer; " + BC + ":run_optimizer; " + BM + ":run_optimizer")],
     ["sample, response, best, histories after the failure and after carrying on"])
prop("C38", "Saved steps and the history plot hold exactly the generations run",
     "While a particle swarm or differential evolution run saves its steps, the step-results file holds at any time all populations, responses and best values up to the last completed generation, readable at every later objective call and after a failure at any population; without saving no file is created or changed, and a later run replaces the file by its own results. The history plot shows exactly the recorded best values over the generations that were run, also after an early stop, and writes a file only when saving is asked for, under the given name.",
     ["crash_points", "histories", "configurations"],
     "every sequence of runs up to the bound, each saving or not and complete, stopped early or failing at any population, the file read back at every objective call; every sequence of runs and plots",
     "No test saves steps or plots a history.",
     [EA],
     [("saving", EA + ":EABase._save_results"), ("plot", EA + ":EABase.plot_optimization_history"),
      ("loops", EA + ":PSO.run_optimizer, DE.run_optimizer")],
     ["step_results.pickle", "data of the figures", "directory listing"])

prop("C39", "Arguments left out equal their defaults; position and name are alike",
     "Leaving an optional argument of a constructor, run, query, draw, prediction or saving out is the same as giving its default (1.5, 1.5, 0.8, 0.2 for the particle swarm, 0.5, 0.5 and DE/rand/1/bin for differential evolution, seeds 123456 and 1996, [1, 1.96] for kappa, 10 iterations, unit cost ratio and so on), whichever other arguments are given. Giving an argument by position or by name is the same.",
     ["configurations", "inputs"],
     "every public call with optional arguments, every subset left out up to the bound, every split into positions and names",
     "The tests use one set of arguments per call.",
     [DS, DM, GP, HK, SK, CK, KE, EA, AU, AC, AM, BU, BC, BM, PS, PM, PF],
     [("parameters", EA + ":PSO.__init__, DE.__init__, run_optimizer; " + GP + ":__init__; " + SK + ":__init__; " + CK + ":__init__; " + HK + ":__init__"),
      ("loop budgets", BU + ":run_optimizer; " + BC + ":run_optimizer; " + BM + ":__init__, run_optimizer")],
     ["results of the call", "what its searches are asked", "files written"])
prop("C40", "Refused requests raise and leave no trace",
     "Requests the library cannot serve raise: counts of a multi-fidelity design that decrease towards the lower fidelities, design spaces of another type, fidelities other than 0 and 1, surrogates a criterion does not support, unknown strategies of differential evolution and unknown surrogate names. The object asked, the objects given and everything returned earlier stay as they were, so that valid requests before and after give what they give without the refused ones.",
     ["histories", "inputs"],
     "every sequence of valid and refused requests up to the bound",
     "No test makes a request that is refused.",
     [DM, EA, AM, BM, MG, CK],
     [("count rule", DM + ":MultiFidelitySampler._mf_samples_rules"), ("fidelity", MG + ":_mfGaussianProcess._eval_corr; " + AM + ":eval"),
      ("strategy", EA + ":DE.__update_pop"), ("surrogate", BM + ":mfUnConsBayesOpt._initialization")],
     ["exceptions", "state of all objects afterwards"])

prop("C41", "Only the numbers count",
     "The results of models, criteria, samplers, evolutionary optimizers and optimization loops depend only on the numbers in the arrays given to them: not on their numeric type, memory order, striding, writability or whether several points are asked at once, and not on whether a user's function hands out a new array at every call, the same array again or a view of a table it keeps. Arrays that belong to the user, including those a function was called with or has returned, keep their values.",
     ["inputs", "histories"],
     "every combination of forms up to the bound, with every way a function may hand out its values",
     "Tests use fresh float arrays everywhere; aliasing and truncation appear with one storage form or one way of returning values.",
     [GP, MG, CK, EA, BU, BC, BM, DS, DM],
     [("forms of training data", GP + ":GaussianProcessRegression.train; " + MG + ":_mfGaussianProcess._train_lf"),
      ("objective's arrays", EA + ":PSO.__update_obj; " + EA + ":DE.__update_obj"),
      ("initial responses", BU + ":_initialization; " + BC + ":_initialization; " + BM + ":_initialization")],
     ["predictions", "samples", "records and best solutions", "the user's arrays afterwards"])

prop("C42", "Printed progress tells the state of the run",
     "A Bayesian optimization loop told to be verbose prints, after initialization and after every iteration, the best value (of the feasible or high-fidelity points where that applies) and best point of that moment, with the number of the iteration and, for a tolerance below one and a known optimum, the error. Particle swarm and differential evolution told to print do so before every generation, with its number and the best value and point so far, and print nothing otherwise.",
     ["histories", "configurations"],
     "every sequence of values, feasibilities and fidelities up to the bound, every optimizer setting",
     "No test reads what is printed; a stale value shows only when it is compared with the step it was printed at.",
     [BU, BC, BM, EA],
     [("loops", BU + ":__print_info; " + BC + ":__print_info; " + BM + ":_print_info"), ("evolution", EA + ":EABase.print_info")],
     ["standard output between two evaluations"])

prop("C43", "Every evaluated point is the least point of the chosen criterion",
     "At every iteration of any of the three loops, with any criterion and any surrogate the criterion supports, the point evaluated is the one at which the search found the criterion least, the criterion being that of surrogates trained on all evaluations so far, of the best value so far, and of the cost ratio and factors asked for. In multi-fidelity optimization it is evaluated at the fidelity whose criterion is smaller.",
     ["configurations", "histories"],
     "every combination of loop, criterion, surrogate, search, cost ratio and factors, at every iteration of runs up to the bound",
     "The tests run a few combinations and compare no proposal with the criterion; parts that are right alone may be wired together wrongly.",
     [BU, BC, BM, AU, AC, AM],
     [("loops", BU + ":run_optimizer; " + BC + ":run_optimizer; " + BM + ":run_optimizer"), ("queries", AU + ":query; " + AC + ":query; " + AM + ":query")],
     ["points the problem is evaluated at", "fidelity they are evaluated at"])

prop("C44", "The library's optimizers serve models, factor searches and criteria",
     "A swarm or evolution object given as the optimizer of a surrogate, of its factor search or of a criterion is asked over the bounds of that search, and the parameters, factor, proposed point and fidelity that result are the least its search evaluated. The result does not depend on what the object was used for before, between or afterwards: one object given to several models, searches, criteria or loops, which use it in turn, gives what separate objects give under the same random state.",
     ["configurations", "histories"],
     "every combination of algorithm setting, model, criterion and loop with every pattern of sharing in the bounded alphabet; both fidelities' searches use one object in every multi-fidelity query",
     "The tests plug one optimizer into one model and check no answer; sharing an object between searches is what a user does, and overwritten buffers or leftovers show only in the second use.",
     [EA, GP, HK, SK, CK, AU, AC, AM],
     [("algorithms", EA + ":run_optimizer"), ("models", GP + ":_hyper_paras_optimization; " + SK + ":_rho_optimize; " + CK + "; " + HK),
      ("criteria", AU + ":query; " + AC + ":query; " + AM + ":query")],
     ["predictions of a model trained by an algorithm", "proposed points and fidelities", "results held while the object is used again"])

with open("properties.jsonl", "w") as f:
    for p in P:
        assert p["statement"].count(". ") <= 2, (p["id"], p["statement"].count(". "))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
