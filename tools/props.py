"""Source of properties.jsonl (run: python3 tools/gen.py)."""
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext},
         "why_tests_cant": why,
         "anchors": {"files": files,
                     "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "hook_needed": None}}
    if observe:
        d["anchors"]["observe_at"] = observe
    P.append(d)


prop("C01", "A dataset exposes exactly the grid it was built from",
     "A dataset built from coordinates and field values, either as one space axis plus time or as any number of named axes, fields and parameter fields, exposes exactly those values: every view of it (raw arrays, dictionary view, mesh and mesh bounds, flattened point list, sizes, ranges, boundaries, per-axis and per-field lookups) describes the same grid, and row i of a flattened view pairs the i-th point's coordinates with that point's field value. "
     "Inputs whose shapes, axes or names contradict each other, and lookups of names that do not exist, raise an error and never yield a dataset or a value.",
     ["inputs"], "all axis counts, axis orders, grid sizes, field sets, names and coordinate values a caller can pass",
     "The tests build a handful of small fixed grids; agreement of all views must hold for every shape, axis order and value, square or not.",
     ["kd/dataset/_base.py"],
     [("PDEDataset construction and validation", "kd/dataset/_base.py:PDEDataset.__init__"),
      ("flattened/mesh views", "kd/dataset/_base.py:PDEDataset.mesh, get_data, get_datapoint")])

prop("C02", "Sampling returns real grid points with their own values",
     "Taking a random sample of points from a dataset returns exactly the requested number (or fraction) of points, each of which is a distinct point of the grid paired with the field value stored at that point; an evenly spread sample returns a square sub-grid no larger than requested with the same pairing, and a spline sample reproduces the field it interpolates. "
     "Splits into training and validation parts are disjoint and keep every sampled point with its value, collocation points stay inside the domain, and the same random seed gives the same sample.",
     ["inputs", "histories"], "all grid shapes, sample sizes/fractions, strategies and seeds",
     "Tests check the shape of one or two samples; pairing of coordinates and values and bounds must hold for every draw.",
     ["kd/dataset/_base.py", "kd/data.py", "kd/model/discover/adapter.py"],
     [("PDEDataset.sample", "kd/dataset/_base.py"), ("SparseData.process_data", "kd/data.py"),
      ("sparse adapter", "kd/model/discover/adapter.py")])

prop("C03", "Catalogue names and data files load to what they contain",
     "Every active dataset name the catalogue lists loads to a dataset whose coordinates are finite, strictly increasing and consistent in size with its field, and repeated loads give equal, independent data. "
     "Array, table and MATLAB files written with known values load back to those values, in the (x, t) orientation whichever way round a non-square field is stored, and unknown names, missing files and missing variables are reported and never yield data.",
     ["inputs", "configurations"], "all catalogue names, file contents, keys and column selections",
     "Tests load some names and look at shapes; equality of contents for arbitrary files and independence of loads are not exercised.",
     ["kd/dataset/__init__.py", "kd/dataset/_base.py", "kd/dataset/_info.py", "kd/dataset/_registry.py"],
     [("load_pde and the registry", "kd/dataset"), ("file loaders", "kd/dataset/_base.py")])

prop("C04", "Fitting, evaluating and plotting never modify the caller's data",
     "No operation that prepares, fits, evaluates, predicts or plots changes the contents of the arrays, dictionaries or dataset object the caller passed in, whatever the model. "
     "Two consecutive uses of the same dataset object therefore see identical data.",
     ["inputs", "histories"], "all datasets, model classes, options, and sequences of operations",
     "Existing tests never compare inputs before and after, and in-place updates only show for particular values (zeros in a divisor, shuffled batches).",
     ["kd/model/kd_sga.py", "kd/model/kd_dlga.py", "kd/model/dlga.py", "kd/model/kd_discover.py", "kd/model/kd_discover_regression.py", "kd/model/sga/sgapde/config.py", "kd/data.py", "kd/viz/_adapters"],
     [("adapters copy or only read", "kd/model/*/adapter.py"), ("safe division", "kd/model/sga/sgapde/config.py:divide")])

prop("C05", "Estimator parameters round-trip",
     "For every estimator built on the common base class, the parameter dictionary it reports contains each constructor parameter with the value it was given, building a new estimator from that dictionary reproduces it, and setting parameters changes exactly the named ones, including nested parameters of a contained estimator. "
     "Setting an unknown parameter raises an error and stores nothing under that name.",
     ["inputs", "histories"], "all estimator classes, parameter subsets, values and nested paths, in any order",
     "Tests set one or two parameters on one class.",
     ["kd/base.py", "kd/model/kd_sga.py", "kd/model/kd_dlga.py", "kd/model/kd_discover.py"],
     [("BaseEstimator.get_params/set_params", "kd/base.py")])

prop("C06", "Finite-difference derivatives are exact where their order promises",
     "Every finite-difference derivative operator (one, two and three space dimensions, every order offered, by each solver and by the shared utilities) is linear in the field, scales with the grid spacing, differentiates only along the requested axis, and reproduces the analytic derivative exactly, up to rounding, for polynomials of the degree its stencil resolves - at interior points and at both boundaries, or with wrap-around where the operator is periodic. "
     "Grids too short for the stencil are rejected.",
     ["inputs"], "all grid sizes, spacings, axes, orders and polynomial coefficients",
     "Tests compare one smooth function on one grid with a loose tolerance, which hides wrong boundary stencils, spacing and axis mix-ups.",
     ["kd/model/sga/sgapde/PDE_find.py", "kd/model/discover/task/pde/utils_fd.py", "kd/model/discover/functions.py", "kd/utils/utils_fd.py", "kd/utils/solver.py", "kd/dataset/_base.py"],
     [("FD stencils", "utils_fd.py, PDE_find.py, solver.py")])

prop("C07", "SGA grid preparation keeps fields, axes and derivatives aligned",
     "Preparing a dataset for the tree-based genetic search keeps every field, parameter field and coordinate attached to the axis it belongs to for any axis order and any choice of target field and left-hand-side axis: the prepared left-hand side and spatial derivatives equal the derivatives of the target field along exactly those axes, relabelling the axis order only permutes them, and edge removal crops fields and coordinates alike. "
     "Inconsistent grids, name collisions, non-uniform or non-monotonic coordinates and missing axes are rejected.",
     ["inputs", "configurations"], "all numbers of axes, axis orders, grid shapes, field/parameter sets and option combinations",
     "Tests use a few fixed grids, mostly two-dimensional with the default axis order.",
     ["kd/model/sga/adapter.py", "kd/model/sga/sgapde/context.py", "kd/model/kd_sga.py"],
     [("dataset to solver settings", "kd/model/sga/adapter.py"), ("problem context", "kd/model/sga/sgapde/context.py")])

prop("C08", "SGA candidate terms stay well-formed under every genetic history",
     "Every candidate term created by random generation, mutation, term replacement or crossover, in any sequence, is a well-formed expression: operators have exactly their number of operands, leaves are known variables, depth stays within the limit, derivatives are taken only with respect to a coordinate axis and never with respect to the left-hand-side axis, and its printed prefix and infix forms describe the same expression. "
     "Every such operation terminates.",
     ["histories", "configurations"], "all random seeds, probabilities, depths, widths, axis sets and operation sequences",
     "Tests run a few generations with a fixed seed and look at the end result only.",
     ["kd/model/sga/sgapde/tree.py", "kd/model/sga/sgapde/pde.py", "kd/model/sga/sgapde/solver.py"],
     [("tree growth and mutation", "kd/model/sga/sgapde/tree.py"), ("crossover", "kd/model/sga/sgapde/solver.py")])

prop("C09", "SGA term values equal the mathematical meaning of the term",
     "The column of numbers used for a candidate term is the value of the written expression on the grid, with derivatives by the solver's finite differences, for every term the search can build; terms that vanish identically, differentiate along the left-hand-side axis, or divide by an all-zero field under the guarded setting are dropped, and the others keep their order. "
     "Evaluating a candidate again gives the same columns, coefficients and score, and leaves the problem data untouched.",
     ["inputs", "histories"], "all expression trees over the operator set, all grids with zeros/negatives, both division settings, repeated evaluation",
     "Tests evaluate a handful of hand-built trees once.",
     ["kd/model/sga/sgapde/pde.py", "kd/model/sga/sgapde/config.py"],
     [("bottom-up evaluation with caches", "kd/model/sga/sgapde/pde.py:evaluate_mse")])

prop("C10", "Sparse regression returns consistent coefficients and scores",
     "The sparse regressions used to fit equations return coefficients whose reported error and information criterion are those of exactly these coefficients on the given data, never a worse criterion than plain least squares, with non-selected coefficients exactly zero and selected ones equal to the least-squares fit on the selected columns. "
     "Noise-free combinations of well-conditioned columns are recovered exactly, and rescaling a column of the data rescales that column's coefficient inversely and leaves the other coefficients of the selection unchanged.",
     ["inputs"], "all full-rank feature matrices, targets, tolerances and penalties",
     "Tests fit one system; the selection/threshold logic branches on data.",
     ["kd/model/sga/sgapde/PDE_find.py", "kd/model/discover/stridge.py", "kd/model/discover/aggregator.py"],
     [("Train/STRidge", "kd/model/sga/sgapde/PDE_find.py"), ("STRidge", "kd/model/discover/stridge.py")])

prop("C11", "SGA search keeps the best candidate and is reproducible",
     "Over the generations of the tree-based genetic search the best score never gets worse, the population keeps its size and is ordered by score, every stored score is the score obtained by evaluating that stored candidate again, and the returned equation and score are the best of the final population. "
     "Two runs with the same data, options and seed return the same equation and score.",
     ["histories", "configurations"], "all seeds, population sizes, probabilities, generation counts and grids",
     "Tests run one or two generations and check that a result exists.",
     ["kd/model/sga/sgapde/solver.py", "kd/model/kd_sga.py"],
     [("selection after crossover and change", "kd/model/sga/sgapde/solver.py:SGA")])

prop("C12", "SGA equation reports say what was fitted",
     "The structured, textual and LaTeX forms of a discovered equation list exactly the terms with non-negligible fitted coefficients, each with its own coefficient and sign, and evaluating the reported equation on the data reproduces the fitted right-hand side. "
     "The left-hand side names the target field and the axis the equation was fitted for, and both derivative notations denote the same equation.",
     ["inputs", "configurations"], "all candidate equations, coefficients including negative, tiny and unit ones, field/axis names and notations",
     "Tests compare a few literal strings.",
     ["kd/model/sga/sgapde/equation.py", "kd/model/sga/sgapde/naming.py", "kd/model/sga/sgapde/pde.py", "kd/model/kd_sga.py"],
     [("extract_equation_details / sga_equation_to_latex", "kd/model/sga/sgapde/equation.py")])

prop("C13", "DLGA genomes stay valid and elitist under every genetic history",
     "In the deep-learning genetic algorithm, every genome produced by initialisation, crossover, mutation and selection, in any sequence, is a non-empty list of non-empty terms of valid operator indices; duplicate removal, which precedes every scoring of a generation, leaves each genome a set of distinct sorted terms, and crossover only exchanges terms within a pair of parents. "
     "Selection keeps the best-scoring genomes in order, as separate individuals, and the population at its size, so the best fitness never gets worse from one selection to the next, and runs with equal seeds agree.",
     ["histories", "configurations"], "all seeds, rates, population sizes and operator counts",
     "Tests check one step with one seed.",
     ["kd/model/dlga.py"],
     [("GA operators", "kd/model/dlga.py:DLGA.cross_over, mutation, select")])

prop("C14", "DLGA term columns, coefficients and fitness agree with their definition",
     "For any genome, the fitted coefficients are the total-least-squares coefficients of its terms (the smallest singular direction of left-hand side and terms together) against whichever left-hand-side derivative they fit better, where each term is the product of its operators' values at the data points, and the reported fitness is the fit error plus the stated complexity penalty. "
     "The derivative operators themselves are the network's exact derivatives with respect to the named input at those points.",
     ["inputs"], "all genomes, operator value tables, left-hand-side choices and networks",
     "Tests check that a fitness value is finite.",
     ["kd/model/dlga.py", "kd/model/kd_dlga.py"],
     [("get_fitness", "kd/model/dlga.py"), ("derivative evaluation", "kd/model/kd_dlga.py, kd/model/dlga.py")])

prop("C15", "DLGA equations are rendered faithfully",
     "The text and LaTeX of an equation found by the deep-learning genetic algorithm contain exactly one summand per genome term, in order, with that term's coefficient and sign and the product of exactly its operators, named after the operators the model was configured with, and the chosen left-hand side. "
     "Reading the rendered equation back gives the genome and coefficients it was rendered from.",
     ["inputs", "configurations"], "all genomes, coefficients, operator name sets and left-hand sides",
     "Tests render a few literal cases with default operator names.",
     ["kd/viz/dlga_eq2latex.py", "kd/model/dlga.py", "kd/model/kd_dlga.py"],
     [("dlga_eq2latex", "kd/viz/dlga_eq2latex.py")])

prop("C16", "Discover token sequences and programs correspond one to one",
     "Any sampled token sequence maps to exactly one expression: incomplete sequences are completed and over-long ones cut to a valid expression, equal sequences share one program, and a program's tokens, tree, string form and length describe the same expression. "
     "Splitting an expression at its top-level additions and subtractions yields terms whose signed combination equals the expression, and saving and reloading a program preserves it.",
     ["inputs", "histories"], "all token sequences over all configured token libraries",
     "Tests use a few hand-written expressions.",
     ["kd/model/discover/program.py", "kd/model/discover/stridge.py", "kd/model/discover/library.py"],
     [("from_tokens and completion", "kd/model/discover/program.py"), ("additive splitting", "kd/model/discover/stridge.py")])

prop("C17", "Discover program execution equals the mathematical meaning",
     "Executing any valid token sequence gives the value of the expression it denotes on the data, with each operator protected only as documented and derivatives taken along the named axis of the field grid, in one, two and three space dimensions. "
     "Results that are not finite are flagged invalid, execution does not change its inputs, and repeated execution gives the same values.",
     ["inputs"], "all expressions over the operator set, grid shapes, spacings and input values",
     "Tests execute a few expressions on one grid.",
     ["kd/model/discover/execute.py", "kd/model/discover/functions.py", "kd/model/discover/stridge.py"],
     [("stack execution", "kd/model/discover/execute.py")])

prop("C18", "Discover rewards are the documented function of the fitted equation",
     "The reward of a candidate equation equals the documented metric computed from the least-squares fit of its terms to the left-hand side and its term count; for the error-based metrics it lies between zero and one as long as the length penalty does, it does not depend on the order of the terms, and it never improves by adding a term that does not reduce the error. "
     "Invalid candidates receive zero reward and no coefficients, and the evaluation report repeats the same coefficients and errors.",
     ["inputs", "configurations"], "all candidate equations, data sets, metrics and penalty settings",
     "Tests check one reward value.",
     ["kd/model/discover/task/pde/pde.py", "kd/model/discover/stridge.py", "kd/model/discover/program.py", "kd/model/discover/task/regression.py"],
     [("reward_function and metrics", "kd/model/discover/task/pde/pde.py")])

prop("C19", "Every configured structural constraint holds on sampled expressions",
     "An expression drawn from the search policy is always complete, never exceeds the maximum length, and satisfies every hard constraint that is configured: forbidden parent-child, sibling, descendant and inverse pairs, repetition limits, minimum and maximum length, and the rules on what may be differentiated and with respect to what. "
     "Constraints never forbid a token that no configured rule forbids there, and the shipped constraint settings never forbid every token at a position.",
     ["histories", "configurations"], "all random seeds, policies, libraries and combinations of constraint settings",
     "Tests check a few hand-picked positions; the guarantee is over all partial sequences.",
     ["kd/model/discover/dso/prior.py", "kd/model/discover/controller.py", "kd/model/discover/dso/subroutines.py"],
     [("JointPrior and constraint classes", "kd/model/discover/dso/prior.py")])

prop("C20", "Search-state bookkeeping matches the partial expression tree",
     "While a token sequence grows, the parent, sibling, ancestors and number of open operand slots reported to the search policy are those of the partial expression tree at that position, for every position of every sequence and every batch row independently. "
     "The encoded state contains exactly this information, and resetting starts from the empty tree.",
     ["histories", "inputs"], "all token sequences, libraries, batch sizes and positions",
     "Tests look at two or three positions of fixed sequences.",
     ["kd/model/discover/task/task.py", "kd/model/discover/dso/subroutines.py", "kd/model/discover/state_manager.py"],
     [("get_next_obs", "kd/model/discover/task/task.py"), ("parents_siblings/ancestors", "kd/model/discover/dso/subroutines.py")])

prop("C21", "Search memory and best-of-run bookkeeping are exact",
     "The bounded priority memory always holds the highest-scoring distinct items pushed so far, in order, and never exceeds its capacity; the risk-seeking filter keeps exactly the valid candidates at or above the requested quantile. "
     "The best expression and score reported at the end of a search are those of the best candidate seen in any iteration, the best score never decreases, and non-dominated and empirical-quantile summaries agree with their definitions.",
     ["histories"], "all sequences of pushes/batches of scores including ties, duplicates and invalid values",
     "Tests push a few items; ties, duplicates and full-queue histories are not explored.",
     ["kd/model/discover/dso/memory.py", "kd/model/discover/searcher.py", "kd/model/discover/utils.py"],
     [("UniquePriorityQueue", "kd/model/discover/dso/memory.py"), ("quantile_select, Searcher", "kd/model/discover/searcher.py")])

prop("C22", "Discover equations are rendered faithfully",
     "The LaTeX of a discovered equation, in every notation, denotes the same function as the program: evaluating the rendered terms with their coefficients on any smooth field gives the program's right-hand side, every fitted term appears once with its own coefficient and sign, and the left-hand side names the configured derivative. "
     "The plain-text expression returned by the search has the same property.",
     ["inputs", "configurations"], "all programs over the operator set, coefficients, notations and left-hand-side axes",
     "Tests compare a few literal strings; precedence, nesting and sign interactions are combinatorial.",
     ["kd/viz/discover_eq2latex.py", "kd/model/discover/program.py", "kd/model/discover/stridge.py"],
     [("discover_program_to_latex", "kd/viz/discover_eq2latex.py")])

prop("C23", "Symbolic regression predicts and reports the formula it found",
     "In regression mode, the prediction for any inputs equals the value of the found formula at those inputs, the reported formula text uses exactly the caller's variable names and evaluates to the same predictions, and the reported error metrics are those of these predictions. "
     "Malformed inputs are rejected before or at fitting and prediction, and predicting before fitting raises an error.",
     ["inputs", "configurations"], "all formulas, feature counts, variable names, constants and inputs",
     "Tests fit one tiny problem with default variable names.",
     ["kd/model/kd_discover_regression.py", "kd/model/discover/task/regression.py"],
     [("expression rendering and predict", "kd/model/kd_discover_regression.py")])

prop("C24", "Discover data preparation keeps values, axes and settings aligned",
     "Preparing a dataset for the reinforcement-learning search keeps every field value at its coordinates for any axis order: fields are only transposed, the left-hand side is the time derivative of the target at the same points, extra fields and parameters are aligned with the target, and the search options match the dataset's dimension. "
     "Reusing a model object for a second dataset behaves as a fresh object would, and unsupported datasets are rejected.",
     ["inputs", "configurations", "histories"], "all axis orders, dimensions, grid shapes, field/parameter sets, and reuse sequences",
     "Tests use fixed small grids and one order.",
     ["kd/model/discover/adapter.py", "kd/model/kd_discover.py", "kd/model/discover/task/pde/pde.py"],
     [("data adapters", "kd/model/discover/adapter.py"), ("import_dataset", "kd/model/kd_discover.py")])

prop("C25", "A Discover run is determined by its data, options and seed",
     "Two Discover searches (grid, tabular or physics-informed) with the same data, options and seed report the same equation, coefficients, reward, error and search history, whatever ran before them: other models, other random draws, an earlier run in the same or another process. "
     "Neither building nor running another model changes a result already reported or what a search continued afterwards finds, and options this release does not support are ignored with a warning without affecting the run.",
     ["histories", "configurations"], "all seeds, options, datasets and sequences of preceding work",
     "Tests run one search once; repeatability is a relation between runs, in every preceding state of the process.",
     ["kd/model/kd_discover.py", "kd/model/discover/searcher.py", "kd/model/discover/controller.py", "kd/model/discover/program.py", "kd/model/discover/adapter.py"],
     [("KD_Discover.setup", "kd/model/kd_discover.py"), ("Searcher", "kd/model/discover/searcher.py")])

prop("C26", "Plot data say exactly what the model and data say",
     "For every supported plot of a fitted model, the numbers behind the plot match the data and model: residuals are observed minus predicted with matching shapes, every plotted point carries its own coordinates, time slices show the field at the stated time, axes of higher-dimensional fields are not mixed up, and histories are passed unchanged. "
     "Plot data whose shapes contradict each other are rejected.",
     ["inputs", "configurations"], "all fitted models, grids, axis orders, slice positions and options",
     "Tests check that image files exist.",
     ["kd/viz/_contracts.py", "kd/viz/_adapters", "kd/viz/discover_viz.py", "kd/viz/dlga_viz.py"],
     [("data contracts", "kd/viz/_contracts.py"), ("model adapters", "kd/viz/_adapters")])

prop("C27", "Visualization requests are dispatched and written where asked",
     "A visualization request is served by the adapter registered for the model's class or nearest base class, later registrations replace earlier ones, the listed capabilities are exactly the plots that can be requested, and an unsupported request yields a warning result rather than an exception or a file. "
     "Every file reported lies under the requested output directory, exists, and is refreshed by every new request; style options apply to that request only and leave matplotlib as it was.",
     ["histories", "configurations"], "all registration/unregistration sequences, class hierarchies, plot kinds, output locations and repeated requests",
     "Tests use one adapter and one directory.",
     ["kd/viz/registry.py", "kd/viz/core.py", "kd/viz/_helpers.py", "kd/viz/_style.py", "kd/viz/api.py", "kd/viz/equation_renderer.py"],
     [("registry and core", "kd/viz/registry.py, kd/viz/core.py")])

prop("C28", "EqGPT vocabulary terms mean what they say",
     "For any smooth surrogate network and any order of input variables, the numerical value of each equation-vocabulary word equals the mathematical expression the word spells (exact derivatives of the surrogate, not of another coordinate), and the differentiable variant used for physics-informed training has the same values and trains through the true dependence on the network. "
     "The columns built for an equation are the products and quotients of those word values that the sentence spells, and the coefficients computed from them are the equation's best linear relation.",
     ["inputs"], "all vocabulary words, surrogate networks, variable sets and orders, and evaluation points",
     "The tests only import the module or check a few words for shape.",
     ["kd/model/eqgpt/calculate_terms.py", "kd/model/eqgpt/PINN_optimization.py", "kd/model/eqgpt/posterial_solution_PINN.py"],
     [("calculate_terms, calculate_terms_PINN", "kd/model/eqgpt/calculate_terms.py"), ("get_PDE_terms, get_coefficients", "kd/model/eqgpt/PINN_optimization.py")])

prop("C29", "EqGPT candidate scoring and ranking are exact",
     "Removing duplicate terms keeps the first of each set of terms with the same factors and operators, never changes the equation's meaning and leaves the caller's sentence alone. "
     "A candidate's reward is the goodness of fit (R2 of its first term explained by the others) with the stated complexity penalty, averaged over the cases it can be evaluated on; it is always a finite number, and zero for malformed or redundant candidates and those that do not involve every coordinate. "
     "The running leader board holds the ten best distinct rewards seen so far, in descending order, each with its own equation, whatever the number of samples and epochs, and the reported equations, rewards and best equation are exactly that board; only vocabulary that can be evaluated is sampled, in alternation with operators, and fine-tuning batches contain exactly the leading equations. "
     "The same seed gives the same result.",
     ["inputs", "histories"], "all candidate sentences, surrogates, reward sequences with ties, sample counts, epochs and seeds",
     "The tests check construction only; tie, order and duplicate interactions are combinatorial.",
     ["kd/model/kd_eqgpt.py", "kd/model/eqgpt/continue_train_GPT_all.py", "kd/model/eqgpt/gpt_model.py"],
     [("delete_duplicate / calculate_reward / find_min_no_repeat / get_mask_invalid", "kd/model/eqgpt/continue_train_GPT_all.py"),
      ("KD_EqGPT.fit_pretrained, _update_top10, _prepare_train_data, _format_results", "kd/model/kd_eqgpt.py")])

prop("C30", "The PySR wrapper passes data through unchanged and validates it",
     "The symbolic-regression wrapper hands the backend exactly the caller's inputs, targets and options, returns the backend's predictions and formula unchanged, and rejects inconsistent input before the backend is called and any query before a completed fit; a fit that fails leaves the last completed fit in force. "
     "Its parity and residual plots show actual against predicted values of exactly the data asked for.",
     ["inputs", "configurations"], "all input shapes, options and call orders, against a stand-in backend",
     "The backend is absent in the test environment, so tests only reach import errors and one mocked path.",
     ["kd/model/kd_pysr.py", "kd/viz/_adapters/pysr.py"],
     [("KD_PySR", "kd/model/kd_pysr.py")])

prop("C31", "Physics-informed residuals equal the equation's residual",
     "For any network and discovered equation, the physics loss is the mean squared difference between the network's exact time derivative and the equation evaluated with the network's exact space derivatives, and switching a program between array and differentiable evaluation does not change its meaning. "
     "The network prediction used for it is the one returned to the caller.",
     ["inputs"], "all equations over the differentiable operator set, coefficients, networks and collocation points",
     "Tests train one network for a few steps and check that files exist.",
     ["kd/model/discover/pinn.py", "kd/model/discover/functions.py", "kd/model/discover/task/pde/utils_nn.py"],
     [("pinn_loss / torch tokens", "kd/model/discover/pinn.py")])

prop("C32", "The search policy is sampled from and trained on the distribution it defines",
     "The likelihoods, entropies and masks recorded when the policy samples candidates are those the policy assigns to them again when it is asked, masked tokens have probability zero, batches of any size can be drawn, and a training step follows the gradient of the stated risk-seeking objective (rewards minus baseline, entropy bonus, priority-queue term) on exactly the samples given.",
     ["inputs", "histories"], "all libraries, constraints, network settings, batch sizes and reward vectors",
     "Tests run one training step and look at shapes; a wrong likelihood still trains.",
     ["kd/model/discover/controller.py", "kd/model/discover/state_manager.py", "kd/model/discover/searcher.py"],
     [("sample / make_neglogp_and_entropy / train_step", "kd/model/discover/controller.py")])

prop("C33", "An offline job runs exactly what its configuration names and reports it",
     "A job trains the named model with the named options and seed on exactly the data its configuration names (built-in or uploaded file, with the file's own keys, orientation, shape and ranges), writes one result file in the named folder that states the model, data, options and outcome truthfully, saves the model's pictures next to it, and exits non-zero exactly when it failed. "
     "Jobs submitted to the platform, in any number and order, run with what was submitted, report their own status, return their own result, and leave no temporary files.",
     ["configurations", "inputs", "faults", "histories"], "all configurations, data files, option spellings, failures and orders of submitting, running, polling and downloading",
     "No test touches the runner or the job helpers.",
     ["kd/runner.py", "kd/job.py", "kd/viz/_style.py"],
     [("load_dataset, run_dlga, run_dscv_spr, save_output, save_viz, main", "kd/runner.py"), ("submit_gpu_job, check_job, download_result", "kd/job.py")])

prop("C34", "The web form trains what it shows and shows what it trained",
     "The page offers exactly the models the registry records for a dataset and shows exactly the chosen model's parameters; pressing train runs the chosen model, here or as an offline job, with exactly the options and data visible on the page, and the page then holds that model's equation, picture, plots and job state, or the error. "
     "Polling follows the submitted job to its own result, plots on the page are the model's plots, and neither leaves files or settings behind.",
     ["histories", "configurations", "faults"], "all histories of filling in, training, submitting, polling, plotting and cancelling, and all registry contents",
     "Tests only search app.py's text for names; no handler is ever called.",
     ["app.py", "kd/job.py", "kd/runner.py", "kd/viz/_style.py"],
     [("run_training, check_gpu_status, run_viz, on_dataset_change, on_model_change, build_app", "app.py")])
