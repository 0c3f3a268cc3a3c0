"""Source of properties.jsonl and MANIFEST.json (run tools/gen.py)."""
DS = "dmpbbo/dynamicalsystems/"
DM = "dmpbbo/dmps/"
FA = "dmpbbo/functionapproximators/"
BB = "dmpbbo/bbo/"
BT = "dmpbbo/bbo_of_dmps/"
SYS = [DS + f for f in ("DynamicalSystem.py", "ExponentialSystem.py", "SigmoidSystem.py", "SpringDamperSystem.py", "RichardsSystem.py", "TimeSystem.py")]
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, technique, note, state=None, na=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(dict(prop=d, technique=technique, note=note, na=na))


TERM = ("Abstract interpretation of the source to a value graph (all branches merged into gated terms; sizes, arrays and scalars symbolic); "
        "the judgement is made on the terms by congruence/normalisation and, where that does not close, by random interpretation of the "
        "terms over 40-digit reals (Gulwani-Necula), so an equality is judged up to a negligible probability of coincidence; an obligation "
        "the analysis cannot interpret is reported as undecided in the evidence and never as a violation. Real arithmetic is assumed "
        "(rounding is not modelled); NumPy is modelled. No code of the repository is executed.")

prop("C01", "Closed-form solutions solve the system's own differential equation",
     "For every dynamical system, the batch solution for given times starts in the initial state, the rates it reports are the time derivative of "
     "the states it reports, and they equal the rates the system's differential equation gives for those states. Each row depends on its own "
     "time only. This holds however the parameters were given, and also after time constant, start or goal were changed on an object that was queried before.",
     ["inputs", "configurations", "histories"],
     "all time constants, starts, goals, shape parameters (shared scalar, list, one value per dimension), any dimension, any increasing times; fresh, reconfigured and decoupled objects",
     "The closed form and the differential equation are two independent pieces of algebra; the suite never compares them, and agreement at a handful of parameters would not extend to others.",
     SYS, [("closed-form solutions", SYS[1]), ("closed-form solutions", SYS[2]), ("closed-form solutions and coupled first-order form", SYS[3]), ("generalised logistic", SYS[4]), ("phase", SYS[5])],
     ["DynamicalSystem.analytical_solution", "DynamicalSystem.differential_equation"],
     "abstract interpretation to value graphs; formal differentiation; term equality", TERM + " Spring-damper: critically damped. Generalised logistic: parameters with a positive power base.")

prop("C02", "Integration steps are the textbook Euler and Runge-Kutta steps",
     "One integration step returns the state advanced by the textbook explicit Euler or classical fourth-order Runge-Kutta step of the system's own "
     "differential equation, together with a rate of the system (Euler: the rate used for the step; Runge-Kutta: the rate at the new state); integrating over a series of times chains such steps over the "
     "actual spacing of those times, starting in the initial state. States of the wrong size are rejected.",
     ["inputs", "configurations"], "every system and DMP type, every step size, state and time series (uniform or not), any dimension",
     "Tests run a single step size on a few systems; a wrong tableau weight, stage time or a spacing taken from the wrong pair of times stays small at the sampled step sizes.",
     SYS + [DM + "Dmp.py"], [("integration steps", SYS[0]), ("overrides that clip or project", DS + "SigmoidSystem.py")],
     ["DynamicalSystem.integrate_step", "DynamicalSystem.integrate"],
     "value graphs compared with the textbook tableau", TERM)

prop("C03", "A DMP's batch rollout and its step-by-step equation agree",
     "For every DMP configuration, the rates in the batch rollout are the rates the DMP's step-by-step equation gives for the states of that rollout; "
     "each subsystem's columns are that subsystem's own solution, the first row is the start state, and the spring part advances from row to row by the "
     "reported rate over the elapsed time. Suppressing the forcing term gives the rollout of a DMP without function approximators.",
     ["inputs", "configurations", "histories"],
     "all DMP types and subsystem combinations, forcing-term scalings, dimensions, approximators (unknown functions of the phase), times; fresh and reconfigured",
     "Batch and step-by-step paths are written twice; tests plot both for a few configurations but assert nothing, and compare no other configuration.",
     [DM + "Dmp.py"] + SYS, [("batch rollout", DM + "Dmp.py"), ("step-by-step equation", DM + "Dmp.py"), ("initial state of the composed system", DM + "Dmp.py")],
     ["Dmp.analytical_solution", "Dmp.differential_equation", "Dmp.integrate_start"],
     "value graphs of both paths compared row by row", TERM + " Function approximators are unknown pointwise functions of the phase.")

prop("C04", "Training a DMP inverts its own equation",
     "After training on a demonstration, if every function approximator reproduces exactly the targets it was given, the DMP's differential equation "
     "evaluated at the demonstrated positions and velocities (and the phase, gating and goal at that time) yields the demonstrated accelerations. "
     "Each approximator is trained on the phase as input and on the target of its own dimension, and the DMP adopts the demonstration's duration, first "
     "position and last position; a demonstration of the wrong dimension is rejected.",
     ["inputs", "configurations"], "all DMP types, subsystem combinations and forcing-term scalings, any demonstration, one to three dimensions, every way of training",
     "Target computation and playback are separate code; tests train and save plots, so a wrong sign, factor or column for a configuration not plotted goes unseen.",
     [DM + "Dmp.py"], [("targets of the forcing term", DM + "Dmp.py"), ("training entry points", DM + "Dmp.py")],
     ["Dmp.train", "Dmp.from_traj", "Dmp.differential_equation"],
     "value graphs: recorded targets substituted for predictions", TERM + " Gating, amplitude and goal distance non-zero at the sampled time.")

prop("C05", "Slowing down in time leaves the path unchanged",
     "Constructing a system or DMP with its time constant multiplied by a factor and asking for times multiplied by the same factor traverses the same "
     "states, with rates divided by the factor (accelerations by its square); the same holds for single integration steps over a scaled duration.",
     ["inputs", "configurations"], "every system, DMP type and scaling; every positive factor; quantities that are rates per unit time are scaled accordingly",
     "A relation between two runs with arbitrary factor; tests use one time constant per system.",
     SYS + [DM + "Dmp.py"], [("every use of the time constant", SYS[0]), ("every use of the time constant", DM + "Dmp.py")],
     ["analytical_solution", "differential_equation", "integrate_step", "Dmp.states_as_trajectory"],
     "unit-homogeneity of value graphs (dimensional analysis)", TERM + " The logistic growth rate is a quantity per unit time; all other shape parameters are dimensionless.")

prop("C06", "Moving start and goal together moves the motion with them",
     "Shifting start and goal of a goal-directed system or DMP by the same vector shifts all positions by it and leaves velocities and accelerations "
     "unchanged. Multiplying start and goal per dimension by a non-zero factor (negative: mirroring) multiplies the motion by that factor, with a forcing term when its scaling follows the distance to the "
     "goal or the (equally multiplied) amplitude, and without a forcing term otherwise.",
     ["inputs", "configurations"], "every goal-directed system and DMP type; every shift and every per-dimension factor; any approximators",
     "A relation between two runs over all shifts and factors; tests use fixed starts and goals.",
     SYS + [DM + "Dmp.py"], [("use of start and goal", DM + "Dmp.py"), ("forcing-term scaling", DM + "Dmp.py")],
     ["analytical_solution", "differential_equation", "Dmp.integrate_step"],
     "equivariance of value graphs", TERM)

prop("C07", "Changing parameters later equals constructing with them",
     "Setting the time constant, start or goal of a system or DMP, in any order, any number of times and before or after use, gives the same batch "
     "solution, start state, step-by-step rates and readable values as an object constructed with the final values; this includes a start handed over "
     "when integration begins, and every subsystem a DMP is composed of. Values of the wrong size are rejected.",
     ["histories", "configurations", "inputs"],
     "setter sequences over time constant, start and goal, interleaved with queries; all systems, DMP types and subsystem combinations. The logistic gating keeps the absolute growth rate it was created with",
     "Stale caches and setters that miss one subsystem depend on the order of operations; tests never set a value after use.",
     SYS + [DM + "Dmp.py"], [("setters of time constant, start, goal", SYS[0]), ("setters forwarding to subsystems", DM + "Dmp.py"), ("cached logistic constants", DS + "SigmoidSystem.py")],
     ["tau", "y_init", "y_attr", "integrate_start"],
     "typestate comparison of value graphs across histories", TERM,
     state=[("initial state", "copy kept by the composed system and by each subsystem", DM + "Dmp.py"), ("cached carrying capacities", "derived from start, time constant, inflection", DS + "SigmoidSystem.py")])

FAS = [FA + f for f in ("FunctionApproximator.py", "FunctionApproximatorWLS.py", "FunctionApproximatorRBFN.py", "FunctionApproximatorLWR.py", "FunctionApproximatorGPR.py", "basis_functions.py")]
prop("C08", "Function approximators predict what their defining criterion prescribes",
     "After training, a weighted linear model, radial basis function network or locally weighted regression predicts the (weighted, regularised) least-squares solution over "
     "its own basis functions, and an unregularised Gaussian process reproduces its training targets (given flat or as one column). Basis functions form a grid over the range of the inputs at the requested crossing height; "
     "normalised activations are positive and sum to one. A prediction depends on its own query and the last training data only; untrained approximators and wrong dimensions are rejected.",
     ["inputs", "configurations", "histories"],
     "every training set, query set, weights, regularisation, number of basis functions and one or more input dimensions; fresh and retrained approximators; scalar and per-dimension numbers of basis functions",
     "The suite trains on one fixed data set and asserts nothing about the values predicted.",
     FAS, [("least squares", FAS[1]), ("radial basis functions", FAS[2]), ("locally weighted lines", FAS[3]), ("Gaussian process", FAS[4]), ("activations and grid", FAS[5])],
     ["FunctionApproximator.train", "FunctionApproximator.predict"],
     "value graphs of training and prediction compared with the defining criterion", TERM + " Matrix inversion is exact; data with a singular normal matrix are outside the quantification.")

prop("C09", "Parameter vectors: size, getter and setter agree for every selection",
     "For a trained approximator, a DMP or a DMP with schedules, and any selection of parameters (a name, a list, any order, goal included or not, none): the reported size is the length of the "
     "vector read; setting the vector that was read changes nothing; a vector that was set is read back; each block reaches the selected parameter, dimension and approximator it is read from, in "
     "the order of the selection (for a DMP: approximators by dimension, then goal, then schedules); other parameters keep their values; vectors of another length are rejected; predictions and "
     "rollouts follow the new values.",
     ["inputs", "configurations", "histories"],
     "every kind of approximator, selection, dimension and vector; trained and untrained approximators inside a DMP",
     "Black-box optimisation lives on this mapping; the tests call the setter for a few selections and never compare what is read back with what was set.",
     FAS[:1] + FAS[1:5] + [DM + "Dmp.py", DM + "DmpWithSchedules.py", "dmpbbo/functionapproximators/Parameterizable.py"],
     [("selection and packing", FAS[0]), ("approximators then goal", DM + "Dmp.py"), ("schedules", DM + "DmpWithSchedules.py")],
     ["get_param_vector", "set_param_vector", "get_param_vector_size", "set_selected_param_names"],
     "round-trip laws on value graphs, enumeration of selections", TERM)

prop("C10", "Vectors, data, demonstrations and states are exchanged by value",
     "What a caller does with an array after handing it over or receiving it has no effect: overwriting a parameter vector that was read or set, training inputs, targets or weights, a demonstration, "
     "a start state given to integrate_start, or anything returned by integrate_start, an integration step, a rollout or predict changes no later prediction, parameter vector, start state or rollout. "
     "In turn, no later use of the object changes a vector, state or rollout the caller kept, setting writes nothing into the vector it is given, and objects given the same vector stay independent.",
     ["histories", "inputs"],
     "overwriting any array exchanged, at any time after the call; every approximator, system, DMP type and selection. Goals and shape parameters handed to constructors and goal setters are excluded",
     "Aliasing shows only when a caller reuses a buffer, as optimisers and robot control loops do and tests do not.",
     FAS[:5] + SYS + [DM + "Dmp.py"], [("parameter vectors", FAS[0]), ("training data", FAS[4]), ("initial states", SYS[0]), ("demonstrations", DM + "Dmp.py")],
     ["get_param_vector", "set_param_vector", "train", "integrate_start", "integrate_step"],
     "alias analysis on an explicit heap: value graphs with and without later overwriting", TERM)

prop("C11", "Schedules follow the phase of the movement and respect their bounds",
     "The schedules a DMP with schedules reports - for a whole rollout, when integration starts and after each step - are the predictions of the schedule approximators at the phase of the state "
     "returned with them, one per approximator in order, limited to the minimum and maximum of that schedule (given once or per schedule, either alone). Schedules never influence the movement. "
     "Training fits each schedule approximator to the schedule of its own dimension over the phase at the demonstrated times; schedules passed explicitly take precedence over those stored in the "
     "demonstration; missing schedules or another number of them are rejected.",
     ["inputs", "configurations", "histories"],
     "every DMP type, bounds, number of schedules, start, step size, state and demonstration; fresh and retrained",
     "A robot executes schedules as gains and forces; no test integrates a DMP with schedules or exceeds a bound.",
     [DM + "DmpWithSchedules.py", DM + "Dmp.py"], [("training, rollouts, steps and bounds of schedules", DM + "DmpWithSchedules.py")],
     ["analytical_solution_sched", "integrate_start_sched", "integrate_step_sched", "train_sched", "from_traj_sched"],
     "value graphs of schedules compared with clipped predictions at the phase", TERM)

prop("C12", "A contextual DMP is its DMP with parameters predicted from the context",
     "Training fits one policy parameter function per selected DMP parameter: its inputs are the contexts of the demonstrations in order, its targets that parameter of a DMP trained on each "
     "demonstration alone. The wrapped DMP adopts the means of time constants, starts and goals. A rollout, start state and steps for a context are those of the wrapped DMP after setting the "
     "predicted parameters (a predicted goal included), whatever contexts were used before; a single function handed over is used as a separate copy per parameter, a list of another length is rejected.",
     ["inputs", "configurations", "histories"],
     "every set of demonstrations and contexts (scalar or vector), DMP type, selection, constructor, retraining, sequence of contexts",
     "No test covers the contextual DMP; pairing errors between parameters, demonstrations and functions still give plausible movements.",
     [DM + "DmpContextualTwoStep.py", DM + "Dmp.py"], [("training and use of policy parameter functions", DM + "DmpContextualTwoStep.py")],
     ["DmpContextualTwoStep.train", "set_task_params", "analytical_solution", "integrate_start", "from_trajs", "from_dmp"],
     "value graphs of recorded training data and rollouts compared with a plain DMP", TERM)

TR = DM + "Trajectory.py"
prop("C13", "A trajectory stays an aligned time series under every operation",
     "Times, positions, velocities, accelerations and extra variables of a trajectory are series of the same length: cropping by index or time keeps exactly the samples asked for, in every series; "
     "appending and prepending put both trajectories in full, in order, one mean time step apart; padding holds the first or last position at rest; matrix conversion is lossless both ways. Derivatives that are not given, recomputed or "
     "follow low-pass filtering are central differences over the mean time step of the current times. Length, duration, mean time step, first and last "
     "position refer to the current series; series of other lengths or dimensions are rejected; caller's arrays are not written.",
     ["inputs", "histories", "configurations"],
     "every series of any length and dimension, with or without extra variables, non-uniform times, operations applied one after another; joined trajectories both have extra variables or neither has",
     "No test asserts on a trajectory; they are built on one uniform time grid and only plotted or fitted.",
     [TR], [("constructor, operations, matrix conversion", TR)],
     ["Trajectory", "crop", "append", "prepend", "pad_front", "pad_end", "from_matrix", "as_matrix", "recompute_derivatives", "apply_low_pass_filter"],
     "value graphs of all series compared with the rows of the operands", TERM + " The Butterworth filter itself is an unknown function.")

prop("C14", "Generated trajectories meet their boundary states, with derivatives that match",
     "A polynomial trajectory is the quintic through the initial and final position, velocity and acceleration given, in the time of the samples (any start time and duration); a minimum-jerk "
     "trajectory is the one at rest at both ends; a viapoint trajectory consists of a quintic from rest at the first sample to the last sample before the viapoint, and one that is in the viapoint "
     "state at the first sample at or after the viapoint time and ends at rest. Velocities and accelerations are the derivatives of the positions. All samples and dimensions are covered.",
     ["inputs", "configurations"],
     "every boundary state, dimension, sampling (start time, duration, non-uniform steps), viapoint and viapoint time inside the samples",
     "The tests generate trajectories from time zero, of duration one, at rest: errors in scaling by duration and in the acceleration coefficients vanish there.",
     [TR], [("generators", TR)], ["Trajectory.from_polynomial", "Trajectory.from_min_jerk", "Trajectory.from_viapoint_polynomial"],
     "value graphs of generated series compared with the quintic determined by the boundary states", TERM)

BB = "dmpbbo/bbo/"
UP = BB + "updaters.py"
prop("C15", "Costs become weights: normalised, ordered, from total costs only",
     "The weights of an update are non-negative, sum to one, and are one per sample in the order of the samples, and depend on the total cost (first component) only, in whatever form costs are given "
     "(vector, list, matrix, list of arrays or lists). PI-BB: exponential of the cost normalised to [0,1], times minus the eliteness; equal costs give equal weights; CEM: equal weights for the lowest "
     "costs, as many as eliteness says; CMA-ES: logarithmic rank weights for these. A lower cost never has a smaller weight; shifting or scaling all costs changes nothing; reordering samples reorders weights.",
     ["inputs", "configurations"],
     "every vector of costs with or without components and ties, any number of samples (also fewer than the eliteness), every weighting method and eliteness; tied costs may get rank weights in any order",
     "No test calls an updater; wrong weights still make optimisation progress on easy problems.",
     [UP], [("weighting", UP)], ["costs_to_weights", "Updater.update_distribution", "UpdaterMean", "UpdaterCovarDecay", "UpdaterCovarAdaptation"],
     "value graphs of weights compared with the prescribed weighting, equivariances", TERM)

prop("C16", "Reward-weighted averaging updates mean and covariance as prescribed",
     "The new mean is the average of the samples weighted by their costs, hence within the range of the samples. The covariance is kept (mean only), multiplied by the square of the decay factor "
     "(decay), or the weighted average of outer products of deviations of the samples from the old mean - its diagonal only if so asked - low-pass filtered with the learning rate and limited on "
     "the diagonal to the squares of the minimum and maximum (adaptation). Distribution before, samples and costs are not modified and not shared; bounds are passed on; an updater carries over nothing "
     "between updates; the order of the samples does not matter.",
     ["inputs", "configurations", "histories"],
     "every distribution, samples, costs, weighting method, updater configuration (scalar or per-dimension limits), repeated updates; learning rates outside [0,1] are rejected",
     "No test updates a distribution; a wrong reference mean, factor or aliasing shows only as slower or biased optimisation.",
     [UP, BB + "DistributionGaussian.py", BB + "DistributionGaussianBounded.py"], [("updaters", UP), ("distributions", BB + "DistributionGaussian.py")],
     ["UpdaterMean", "UpdaterCovarDecay", "UpdaterCovarAdaptation", "update_distribution", "DistributionGaussian"],
     "value graphs of mean and covariance compared with the prescribed update; alias analysis", TERM)

prop("C17", "Samples come from the current, bounded distribution; nothing else is random",
     "Sampling makes one draw from the multivariate normal with the current mean and covariance - also after an update or assignment - and returns it with one row per sample and one column per "
     "dimension; a bounded distribution limits every sample to its bounds (scalar or per dimension, either or both may be absent), also after any update. Sampling changes nothing about the "
     "distribution and every call draws anew. Training, prediction, integration, trajectory operations and updates draw no random numbers: they are functions of their arguments and state.",
     ["inputs", "histories", "configurations"],
     "every distribution, bounds, number of samples, history of sampling, assignments and updates; every approximator, system, DMP type and updater",
     "Randomness cannot be sampled away by tests: a stale covariance or hidden draw shows in statistics only.",
     [BB + "DistributionGaussian.py", BB + "DistributionGaussianBounded.py", UP], [("sampling", BB + "DistributionGaussian.py"), ("bounds", BB + "DistributionGaussianBounded.py")],
     ["generate_samples", "DistributionGaussianBounded", "train", "predict", "integrate_step", "analytical_solution"],
     "effect analysis of random draws; value graphs of samples compared with the limited draw", TERM)

RO, RT, SS = BB + "run_optimization.py", BT + "run_optimization_task.py", BT + "step_by_step_optimization.py"
LS, LT = BB + "LearningSession.py", BT + "LearningSessionTask.py"
prop("C18", "Optimization loops sample, evaluate, update and record consistently",
     "Running an optimization (of a cost function, or of a task with a solver) does, for every update, exactly this: evaluate the mean of the current distribution, draw the number of samples asked for from the current "
     "distribution, evaluate every sample exactly once, hand distribution, samples and costs to the updater in the same order, and continue with the distribution the updater returns. The session returned (also when "
     "reopened from its directory) holds under each update the distribution before and after, samples, costs, weights, evaluation and - for tasks - every roll-out with its own sample and cost; the initial distribution is not "
     "modified. A roll-out of the DMP task solver is the movement of the DMP with the sample as its parameters over the integration time asked for, whatever was rolled out before, and leaves the caller's DMP unchanged.",
     ["inputs", "histories", "configurations"],
     "every cost function, task, task solver, updater and distribution; any number of updates, samples, dimensions and cost components (analysed: 1-3 updates, 1-4 samples, 1-3 dimensions, scalar or 1-3 costs)",
     "The optimisation tests check at best that the cost goes down, which it also does when samples, costs or distributions of different updates are mixed up.",
     [RO, RT, LS, LT, BT + "TaskSolverDmp.py"], [("optimization loops", RO), ("task loop", RT), ("roll-outs", BT + "TaskSolverDmp.py")],
     ["run_optimization", "run_optimization_task", "LearningSession.ask", "TaskSolverDmp.perform_rollout"],
     "effects (draws, evaluations, updates) with the value graphs of their arguments, compared with what the session returns", TERM)

prop("C19", "What is told to a learning session can be asked back, unchanged and unmixed",
     "Whatever is told to a learning session under a name, update number and sample number (each optional; integers or numpy integers; \"eval\" as a sample: the same as the name with prefix eval_) can be asked under exactly these, equal to what was told last, and "
     "exists only once told - in memory, with a directory, reopened from that directory, or saved at the end and reopened. Values told under other names or numbers are not affected, nor do changes to an object after it was told, "
     "or to an object that was asked, affect the session. What is passed to the constructor, and what is added per update, evaluation and roll-out, can be asked under its own name.",
     ["inputs", "histories", "configurations"],
     "arrays, lists of vectors, numbers, texts, distributions, updaters and DMPs; every key; telling in any order, again, with a value of another kind; matrices with more than one row and column (text files do not keep the shape of a "
     "matrix with one row or one column)",
     "Tests run one session in one mode; a key that collides or a value that is shared shows only for particular combinations.",
     [LS, LT, "dmpbbo/json_for_cpp.py"], [("tell, ask, exists", LS), ("DMPs also for C++", LT)],
     ["tell", "ask", "exists", "from_dir", "save_all", "add_update", "add_eval", "add_rollout", "add_eval_task"],
     "abstract interpretation with a model of the file system: terms and heap cells of what is asked compared with what was told", TERM + " numpy.savetxt/loadtxt and jsonpickle are modelled as lossless on the values described.")

prop("C20", "What a learning session reports about an optimization is what happened",
     "However a session was filled (optimization loops, step by step, or by the client), whether in memory, still open or reopened from its directory, the number of updates is the number performed so far, the sample costs of an update "
     "are those of its samples in order, and the evaluation cost is that of the mean before the update (the mean of the sample costs if it was not evaluated). The learning curve has one row per update: the number of samples drawn before "
     "the evaluation, then all cost components; cost before, after and their ratio refer to the first and last evaluations. Queries change neither the session nor later answers.",
     ["inputs", "histories", "configurations"],
     "every session with any number of updates, samples per update and cost components (vectors; scalar costs while the session is open), with or without evaluations, queried at any time and repeatedly",
     "Tests at most plot the learning curve; off-by-one updates and mixed-up costs still look like learning.",
     [LS, LT], [("reports", LS)], ["get_n_updates", "get_sample_costs", "get_eval_costs", "get_learning_curve", "get_cost_ratio", "get_eval_cost_before_after"],
     "value graphs of answers compared with what was stored; heap effects of queries", TERM)

prop("C21", "Step-by-step optimization is the loop, one update at a time, also restarted",
     "Preparing a step-by-step optimization draws one batch of samples from the initial distribution; every update step evaluates the roll-outs of the current batch and of the evaluation (each once, with the parameters of its own "
     "movement), hands the distribution, samples and total costs of the samples - not that of the evaluation - to the updater, stores costs, weights and the new distribution, and draws the next batch from that. The movement stored for a "
     "sample (and trajectory, if asked for) has the parameters of that sample, the one for evaluation those of the mean. Reopening the session from its directory between steps makes no difference; the caller's objects and the "
     "initial distribution and DMP kept by the session are never modified.",
     ["histories", "inputs", "crash_points", "configurations"],
     "every task, updater, distribution (bounded or not), number of samples, steps and cost components, DMP and selection of parameters, restarts between any steps",
     "The step-by-step demo needs a robot or C++ executable between steps; no test runs it, let alone a restart.",
     [SS, LT, LS], [("preparation and steps", SS)], ["prepare_optimization", "update_step", "LearningSessionTask.from_dir"],
     "abstract interpretation of sequences of steps over a model of the file system; effects compared with stored values", TERM)

CPPTERM = TERM + (" The C++ sources are parsed by clang (syntax tree of every translation unit and of the instantiated header templates) and interpreted in the same "
           "way, including the flow through their JSON readers; Eigen and nlohmann::json are modelled.")
CF = "src/functionapproximators/"
prop("C22", "A function approximator saved for C++ makes the same predictions there",
     "An RBFN or LWR trained in Python and saved with savejson_for_cpp can be read by the C++ library, for one- and multi-dimensional inputs, any number of "
     "basis functions (including one), and also after its parameters were set with set_param_vector. In C++, predict on a batch of queries and predictRealTime on "
     "each single query, however often and in whatever order they are called, return the predictions Python makes for those queries.",
     ["inputs", "configurations", "histories"],
     "every training set, number of basis functions, input dimension, parameter vector, queries and sequence of calls",
     "The integration test compares batch predictions on one grid for four approximators; the real-time path used on robots is never compared, nor any other size, parameter vector or sequence of calls.",
     ["dmpbbo/json_for_cpp.py", "dmpbbo/functionapproximators/FunctionApproximator.py", "dmpbbo/functionapproximators/BasisFunction.py", "dmpbbo/functionapproximators/FunctionApproximatorRBFN.py", "dmpbbo/functionapproximators/FunctionApproximatorLWR.py",
      CF + "FunctionApproximator.cpp", CF + "FunctionApproximatorRBFN.cpp", CF + "FunctionApproximatorLWR.cpp", CF + "BasisFunction.cpp", "src/eigenutils/eigen_json.tpp"],
     [("export", "dmpbbo/json_for_cpp.py"), ("import", CF + "FunctionApproximatorRBFN.cpp"), ("import", CF + "FunctionApproximatorLWR.cpp"), ("real-time prediction", CF + "FunctionApproximatorLWR.cpp"), ("basis functions", CF + "BasisFunction.cpp")],
     ["savejson_for_cpp", "FunctionApproximator::predict", "FunctionApproximator::predictRealTime"],
     "abstract interpretation of Python's syntax tree and of clang's C++ syntax tree to one term language; terms compared across the JSON document", CPPTERM)

CS = "src/dynamicalsystems/"
prop("C23", "A dynamical system saved for C++ behaves there as in Python",
     "An exponential, sigmoid, spring-damper or time system with parameters shared by all dimensions, saved with savejson_for_cpp in any configuration (also after time constant, initial state or goal were changed), can be "
     "read by the C++ library. There it has the same start state and rates, Euler and Runge-Kutta steps and analytical solution as in Python (for spring-damper systems: the latter if critically damped), as read and also after "
     "the time constant, the initial state (set_x_init, set_y_init or as argument of integrateStart) or the goal were changed in both.",
     ["inputs", "configurations", "histories"],
     "every parameter, dimension, state, step size and series of times, every order of changes before saving and after reading; matrices asked for as T x D or D x T",
     "The integration test compares one configuration of each system as constructed; nothing is changed before saving or after reading, and several initial velocities, masses and goals are never used.",
     ["dmpbbo/json_for_cpp.py", CS + "DynamicalSystem.cpp", CS + "ExponentialSystem.cpp", CS + "SigmoidSystem.cpp", CS + "SpringDamperSystem.cpp", CS + "TimeSystem.cpp", "src/eigenutils/eigen_json.tpp"],
     [("export", "dmpbbo/json_for_cpp.py"), ("equations, solutions and import", CS + "SpringDamperSystem.cpp"), ("cached saturation levels", CS + "SigmoidSystem.cpp"), ("integration steps, starts", CS + "DynamicalSystem.cpp")],
     ["savejson_for_cpp", "DynamicalSystem::integrateStep", "DynamicalSystem::analyticalSolution"],
     "abstract interpretation of Python's syntax tree and of clang's C++ syntax tree to one term language; terms compared across the JSON document", CPPTERM)

prop("C24", "A DMP saved for C++ makes there the movement it makes in Python",
     "A DMP (IJSPEERT_2002_MOVEMENT, KULVICIUS_2012_JOINING or COUNTDOWN_2013, or with exponential goal or phase system, no goal system, another spring-damper system; all with the DMP's time constant) with trained RBFN or LWR "
     "approximators or none, saved with savejson_for_cpp in any configuration, can be read by the C++ library. There its start, rates, Euler and Runge-Kutta steps, analytical solution, forcing terms and the positions, velocities "
     "and accelerations read from states equal those in Python (leaving out Python's block for the damping coefficient), as read and also after time constant, initial state or goal were changed in both.",
     ["inputs", "configurations", "histories"],
     "every DMP type, scaling of the forcing term, dimension, parameter, state, step size and series of times; changes before saving and after reading",
     "The integration test cannot compare (its arrays have different sizes in Python and C++), and exercises one DMP, as trained.",
     ["dmpbbo/json_for_cpp.py", DM + "Dmp.py", "src/dmp/Dmp.cpp", "src/dmp/Dmp.hpp"] + [CS + x for x in ("DynamicalSystem.cpp", "ExponentialSystem.cpp", "SigmoidSystem.cpp", "SpringDamperSystem.cpp", "TimeSystem.cpp")],
     [("equations, forcing term, import", "src/dmp/Dmp.cpp"), ("setters that reach the subsystems", "src/dmp/Dmp.cpp"), ("export", "dmpbbo/json_for_cpp.py")],
     ["savejson_for_cpp", "Dmp::integrateStart", "Dmp::differentialEquation", "Dmp::analyticalSolution"],
     "abstract interpretation of Python's syntax tree and of clang's C++ syntax tree to one term language; terms compared across the JSON document", CPPTERM)

prop("C25", "Objects made with C++ constructors behave as Python objects of the same parts",
     "A dynamical system, RBFN, LWR or DMP made with any of its public C++ constructors (for DMPs: from given subsystems, from a DMP type, without forcing term, or with only the number of dimensions and time constant, initial state "
     "and goal set later) behaves as the Python object made of the same parameters and parts. The same start, rates, steps, analytical solution, forcing terms and predictions result, as constructed and after time constant, initial "
     "state or goal were changed in both. The type constructors use Python's subsystems except for the gating sigmoid (rate -10, inflection at 0.9 of the duration).",
     ["inputs", "configurations", "histories"],
     "every constructor, parameter, dimension, state, step size, series of times and query",
     "No test uses a C++ constructor other than through JSON.",
     ["src/dmp/Dmp.cpp"] + [CS + x for x in ("DynamicalSystem.cpp", "ExponentialSystem.cpp", "SigmoidSystem.cpp", "SpringDamperSystem.cpp", "TimeSystem.cpp")] + [CF + "FunctionApproximatorRBFN.cpp", CF + "FunctionApproximatorLWR.cpp"],
     [("constructors", "src/dmp/Dmp.cpp"), ("critically damped default", CS + "SpringDamperSystem.cpp"), ("counting direction", CS + "TimeSystem.cpp")],
     ["Dmp::Dmp", "SpringDamperSystem::SpringDamperSystem", "ExponentialSystem::ExponentialSystem"],
     "abstract interpretation of Python's syntax tree and of clang's C++ syntax tree to one term language; terms compared", CPPTERM)

prop("C26", "A trajectory in C++ is the aligned time series it is in Python",
     "Trajectories generated in C++ (minimum jerk, polynomial, polynomial through a viapoint at the first sample not before the viapoint time) are at every sample the quintic through the given boundary states, with its derivatives as velocities and "
     "accelerations. Constructor, copies, append, set_misc, asMatrix, duration, ranges and first and last positions keep and reflect the rows given, aligned by time. A file saved by Python's savetxt or C++ saveToFile is read back by readFromFile "
     "as the same trajectory (up to the printed digits), and an existing file is only overwritten if asked for, which the return value reports.",
     ["inputs", "configurations", "histories"],
     "every series of times (not starting at zero, not uniform), boundary state, dimension, number of extra variables and existing file",
     "No test generates, appends, saves or reads a C++ trajectory and looks at it.",
     ["src/dmp/Trajectory.cpp", "src/dmp/Trajectory.hpp", "src/eigenutils/eigen_file_io.hpp", "src/eigenutils/eigen_file_io.tpp", DM + "Trajectory.py"],
     [("generators, append, file columns", "src/dmp/Trajectory.cpp"), ("text files of matrices", "src/eigenutils/eigen_file_io.tpp"), ("savetxt", DM + "Trajectory.py")],
     ["Trajectory::generatePolynomialTrajectory", "Trajectory::append", "Trajectory::saveToFile", "Trajectory::readFromFile"],
     "abstract interpretation of clang's C++ syntax tree (and of Python's for files) to terms; compared with the quintic derived from the boundary states, and row by row", CPPTERM)

prop("C27", "Real-time calls of the C++ library allocate no heap memory",
     "Once a dynamical system, DMP or function approximator has been read from JSON or made with its constructor, its real-time calls with right-sized vectors allocate no memory on the heap, from the first call on: differentialEquation, "
     "integrateStep (also in place), integrateStepEuler and integrateStepRungeKutta of every system and DMP, predictRealTime of RBFN and LWR, and on DMPs set_y_attr and stateAsPosVelAcc. "
     "This holds for every DMP type, forcing-term scaling and combination of subsystems, and after time constant, start and goal were changed.",
     ["configurations", "histories", "inputs"],
     "every type, scaling, subsystem, dimension and earlier call, on every path; an allocation in a loop that has to meet its deadline shows only as jitter",
     "Allocations change no result, so no test that looks at results can see them; the Eigen hook that would (EIGEN_RUNTIME_NO_MALLOC) is not enabled in the build.",
     ["src/dmp/Dmp.cpp", "src/dmp/Dmp.hpp", "src/eigenutils/eigen_realtime_check.hpp"] + ["src/dynamicalsystems/" + x for x in ("DynamicalSystem.cpp", "ExponentialSystem.cpp", "SigmoidSystem.cpp", "SpringDamperSystem.cpp", "TimeSystem.cpp")]
     + ["src/functionapproximators/" + x for x in ("FunctionApproximatorLWR.cpp", "FunctionApproximatorRBFN.cpp", "BasisFunction.cpp")],
     [("buffers allocated in advance", "src/dmp/Dmp.cpp"), ("Runge-Kutta buffers", "src/dynamicalsystems/DynamicalSystem.cpp"), ("one-sample prediction", "src/functionapproximators/FunctionApproximatorLWR.cpp")],
     ["Dmp::differentialEquation", "DynamicalSystem::integrateStepRungeKutta", "FunctionApproximatorLWR::predictRealTime"],
     "effect analysis (heap allocation) of clang's C++ syntax tree, with the static types of Eigen's expressions and the sizes of matrices tracked by abstract interpretation", CPPTERM)

NUM = "Quantifies over rounding, sampling noise or limits of real sequences; no source-level argument in reach bounds these, and running the code would be another technique."


def na(id, title, statement, over, qtext, why, files, reason):
    prop(id, title, statement, over, qtext, why, files, [("whole module", files[0])], ["public API"], "none", "not claimed", na=reason)


na("C90", "Black-box optimization finds parameters of lower cost",
   "For any smooth cost function and a reasonable initial distribution, the expected cost of the mean decreases over the updates and the distribution contracts around a local minimum.",
   ["inputs", "histories"], "every cost function, initial distribution and random sequence", "Tests sample a few cost functions and seeds.", [RO, UP],
   "Expectation over random draws and cost functions: a statistical convergence statement, not a property of the source text. The ingredients it rests on (sampling, weights, updates, bookkeeping) are decided in C15-C18.")
na("C91", "A DMP converges to its goal whatever it has learned",
   "For every learned forcing term, the state of a DMP tends to the goal at rest as time goes to infinity, because the gating makes the forcing term vanish.",
   ["inputs", "configurations"], "every DMP, approximator and goal", "Infinite horizon.", [DM + "Dmp.py"],
   "A limit of a forced differential equation (stability analysis with a vanishing input); terms give the equation (C01, C03) but not its limit.")
na("C92", "Approximators fit smooth functions to a given accuracy and generalise",
   "With enough basis functions, the prediction error of a trained approximator on unseen inputs of a smooth function is below a tolerance.",
   ["inputs", "configurations"], "every smooth function, training set and query", "One data set in the suite.", FAS[:5],
   "Approximation error depends on runtime data; C08 decides the criterion the fit solves, not how well that criterion generalises.")
na("C93", "Results stay finite and accurate in floating point",
   "Closed forms, integration, least squares and weights stay finite and lose no accuracy for extreme time constants, inflection rates, nearly equal costs or badly conditioned data.",
   ["inputs"], "every floating-point input", "Tests use benign magnitudes.", [DS + "SigmoidSystem.py", FA + "least_squares.py", UP], NUM)
na("C94", "Euler and Runge-Kutta integration converge to the closed form",
   "The error of integrated states against the batch solution vanishes with the step size at first and fourth order.",
   ["inputs", "configurations"], "every system and step size tending to zero", "A limit; tests use one step size.", [DS + "DynamicalSystem.py"],
   "An asymptotic statement; it follows from C01 and C02 (textbook steps of the same equation) by classical numerical analysis outside the source.")
na("C95", "A covariance stays symmetric positive definite under every update",
   "After any sequence of updates, with limits on the diagonal, the covariance of the distribution is a valid covariance.",
   ["inputs", "histories"], "every sequence of updates and limits", "Depends on data.", [UP],
   "False in general by construction (raising or lowering only the diagonal entries of a full covariance can make it indefinite), and where it holds it is an eigenvalue statement on runtime data; the update itself is decided in C16.")
