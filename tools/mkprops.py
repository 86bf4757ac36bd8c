"""Regenerates /verif/properties.jsonl (kept as a script so the wording is easy to review)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
             why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d['anchors']['observe_at'] = observe
    d['anchors']['hook_needed'] = None
    assert len(title) <= 80, title
    P.append(d)
S = 'src/qinfer/'

prop('C01', 'Sequential Monte Carlo updates are exact Bayesian updates',
 "After any history of data, every particle's weight is its starting weight times the product of the likelihoods of all the data seen since, rescaled so that the weights sum to one, and between resamplings the particle locations change only as the model's own time step dictates. "
 "The recorded per-datum normalizations and the total log-likelihood equal the evidence of the data under the weighted particles, the data record lists every outcome in order, and updating in a batch gives the same posterior and records as updating one datum at a time. "
 "Hypothetical updates return the posterior weights, normalizations and likelihoods that the corresponding real update of each outcome and experiment pair would produce.",
 ['histories', 'inputs', 'configurations'],
 'every sequence of outcomes and experiments, every model with finitely many outcomes, every particle set and weighting, every batch size and resample interval',
 'Tests run a few seeded estimation runs and check that the mean lands near the truth; an update wrong for one outcome, one position in a batch or one weight pattern still converges.',
 [S+'smc.py', S+'abstract_model.py'],
 [('hypothetical_update', S+'smc.py: SMCUpdater.hypothetical_update'), ('update', S+'smc.py: SMCUpdater.update'), ('batch_update', S+'smc.py: SMCUpdater.batch_update')],
 [('particle_weights', 'normalised posterior weights', S+'smc.py'), ('normalization_record', 'evidence of each datum', S+'smc.py'), ('data_record', 'all outcomes so far', S+'smc.py')],
 ['SMCUpdater public attributes after each operation'])

prop('C02', 'Impossible data are handled by the declared policy, for every history',
 "When a datum is impossible under every weighted particle, the configured policy decides what happens: 'ignore' does what a plain update does, leaving every weight zero, 'warn' does the same with a warning, 'skip' leaves weights, locations and evidence as they were, 'error' (the default) raises without changing them, and 'reset' warns and ends with a freshly drawn, uniformly weighted prior sample in canonical form. "
 "After any history of possible and impossible data, single or batched, under skip, reset or caught errors, the particles are finite, the weights are nonnegative and sum to one, and between resets they are the exact posterior of the accepted data; the data record lists every datum. "
 "A possible datum whose total likelihood lies well above rounding error, however small, never triggers a policy, and an unknown policy is refused when it is needed.",
 ['histories', 'configurations', 'fault_sequences'],
 'every interleaving of possible and impossible data, every policy, single and batched updates, static and moving particles',
 'The tests exercise each policy at most once from a fresh updater; later histories and the state after a recovered impossible datum are never examined.',
 [S+'smc.py'],
 [('zero weight policy', S+'smc.py: SMCUpdater.update'), ('reset', S+'smc.py: SMCUpdater.reset')],
 [('zero_weight_policy', 'what to do when all likelihoods vanish', S+'smc.py')], ['weights, locations, warnings and exceptions of update'])

prop('C03', 'Queries and hypothetical computations never change the inference',
 "Evaluating posterior summaries, credible regions, hypothetical updates, Bayes risk, expected information gain, sampling, marginals, meshes, designs, likelihoods or simulations leaves weights, locations, records and counters of resampling unchanged, so a history with any queries inserted ends in the same state as the history without them, even if the caller overwrites the arrays a query returned. "
 "The answer to a query depends only on the current state and the random answers it draws, never on what was asked before or in which earlier state. "
 "No operation modifies the arrays of outcomes, parameters, experiments, prior samples or moments that the caller passed in. "
 "Two updaters that share a model, a prior or a resampler never influence each other's particles or records, however their operations are interleaved.",
 ['histories', 'schedules', 'configurations'],
 'every insertion of queries between updates, every interleaving of the operations of two updaters, every public query',
 'Tests never compare a history with and without queries nor interleave two updaters, so in-place modification of shared arrays or model state is invisible to them.',
 [S+'smc.py', S+'distributions.py', S+'abstract_model.py', S+'derived_models.py'],
 [('copies of particle arrays', S+'smc.py: update, hypothetical_update'), ('resampler returns new arrays', S+'resamplers.py')],
 None, ['updater state and caller arrays before and after each query'])

prop('C04', 'Resampling happens exactly when due and the books stay consistent',
 "After each datum that is checked, the particles are resampled if and only if the effective sample size, one over the sum of squared weights, has fallen below the configured fraction of the number of particles; in a batch the check happens after every stated number of data. "
 "The count of resamplings, the flag for having just resampled, the smallest effective sample size seen after any datum and one recorded divergence per resampling agree with that history; resampling twice without new data warns, and each resampling clears the model's cache once. "
 "Resampling always yields uniform weights over the present number of particles, also after a reset to another number, and no other operation resamples.",
 ['histories', 'configurations'],
 'every history of updates, batches, forced resamplings and resets, every threshold including 0 and 1, every batch interval, every combination of options',
 'Tests only look at final estimates; the moment of resampling and the books after mixed histories are never compared with a reference.',
 [S+'smc.py', S+'resamplers.py', S+'distributions.py'],
 [('_maybe_resample', S+'smc.py: SMCUpdater._maybe_resample'), ('resample', S+'smc.py: SMCUpdater.resample'), ('n_ess', S+'distributions.py: ParticleDistribution.n_ess')],
 [('resample_count', 'number of resamplings so far', S+'smc.py'), ('min_n_ess', 'smallest ESS observed', S+'smc.py')], ['updater attributes after each operation'])

prop('C05', 'Liu-West resampling keeps the posterior moments and only valid particles',
 "For every weighted particle set and every answer of the random sources, each new particle is an old particle drawn independently with its weight, never one of zero weight, shrunk toward the weighted mean by the factor a, plus noise scaled by h times a square root of the weighted covariance, and every redraw of an invalid particle uses that particle's own centre and fresh noise. "
 "Over the random sources the expected location is the weighted mean and, with the default h, the covariance is the weighted covariance. "
 "The result has the requested number of particles, uniform weights and only parameters the model deems valid, unless postselection is off or the redraw limit is reached, in which case a warning says so; given moments, kernels and sizes are honoured, and a set without any spread is separated by the stated small covariance, with a warning.",
 ['inputs', 'schedules', 'configurations'],
 'every particle set and weighting, every index draw and noise draw, every pattern of invalid redraws, every requested size, every a in [0,1]',
 'Tests compare one seeded resampling with loose tolerances; redraws of invalid particles and degenerate weights are not reached.',
 [S+'resamplers.py'],
 [('LiuWestResampler.__call__', S+'resamplers.py'), ('sqrtm_psd', S+'utils.py')],
 None, ['returned weights and locations'])

prop('C06', 'Likelihoods are normalised, pointwise and batch-consistent for every model',
 "For every model with a finite outcome domain and all valid parameters and experiments, the likelihood array has one entry per outcome, parameter vector and experiment, lies in [0,1] and sums to one over the domain of that experiment. "
 "Every entry depends only on its own outcome, parameters and experiment, so batches equal single evaluations in any order, shape or mixture. "
 "Each concrete model's likelihood equals its documented closed form, including visibility, decay, bias, flip and finite-sampling effects.",
 ['inputs', 'configurations'],
 'every shipped model, every combination of parameters, experiments and outcomes, every batch size and order',
 'Tests check shapes and a few values of a few models; cross-talk between batch entries and outcome sums over heterogeneous experiments are not checked.',
 [S+'test_models.py', S+'rb.py', S+'derived_models.py', S+'abstract_model.py', S+'tomography/models.py'],
 [('likelihood', S+'test_models.py, rb.py, derived_models.py'), ('pr0_to_likelihood_array', S+'abstract_model.py')],
 None, ['Model.likelihood return value'])

prop('C07', 'Simulated experiments follow the likelihood and stay in the outcome domain',
 "For every finite-outcome model, parameter vector and experiment the distribution of simulated outcomes, over all answers of the random source, is the model's likelihood over the experiment's outcome domain, and impossible outcomes are never produced. "
 "Results are shaped repeats by parameters by experiments with a lone outcome returned when all are one, use the domain's data type, and repeats, parameters and experiments are simulated independently.",
 ['schedules', 'inputs', 'configurations'],
 'every answer of the random number source, every model, number of repeats, parameter batch and experiment batch, constant or varying outcome domains',
 'Tests draw samples with loose statistics or check only shapes; wrong probabilities for rare outcomes, boundaries of the random draw and shared randomness between repeats pass.',
 [S+'abstract_model.py', S+'derived_models.py', S+'domains.py'],
 [('FiniteOutcomeModel.simulate_experiment', S+'abstract_model.py'), ('BinomialModel/MultinomialModel.simulate_experiment', S+'derived_models.py')],
 None, ['Model.simulate_experiment return value'])

prop('C08', 'Derived models equal the statistics of the models they wrap',
 "The binomial and multinomial models assign to each count the total probability of all shot records of the underlying model with that count, for any number of shots and any mixture of shot numbers in one call, and reduce to the underlying model for a single shot. "
 "The hyperparameterised Gaussian model's likelihood of a continuous datum is the mixture over underlying outcomes of the normal densities with the stated means and variances, and its simulated data follow that mixture. "
 "Maximum-likelihood models raise the likelihood to the stated power. "
 "Poisoned models add independent normal error to each entry of the likelihood, of the constant size given or of the standard error of the hedged binomial estimate with the stated number of samples, and clip to [0, 1]. "
 "Random-walk variants change nothing about the wrapped model's likelihood.",
 ['inputs', 'configurations', 'schedules'],
 'every wrapped model, shot number, count, parameter vector and experiment, and every answer of the random source in the poisoned models',
 'Tests compare a few values per wrapper; enumerating all shot records, all poison draws and mixed shot numbers in one batch is beyond them.',
 [S+'derived_models.py', S+'utils.py'],
 [('BinomialModel', S+'derived_models.py'), ('MultinomialModel', S+'derived_models.py'), ('GaussianHyperparameterizedModel', S+'derived_models.py'), ('PoisonedModel', S+'derived_models.py'), ('MLEModel', S+'derived_models.py')],
 None, ['likelihood and domain of derived models'])

prop('C09', 'Wrapped models keep the metadata and validity rules of the models they wrap',
 "For every stack of model wrappers, parameter names and count, experiment fields, scale matrix, validity of parameters, canonical form, whether the number of outcomes is constant, outcome counts and domains agree with the wrapped model except where the wrapper documents a change. "
 "Each model names the chain of models it wraps, and experiments count as of one type exactly when their outcome domains do. "
 "Metadata are mutually consistent: names and scale matrix match the parameter count, the domain of an experiment has exactly the number of outcomes stated for it, canonical forms are idempotent and valid points stay valid under them.",
 ['configurations', 'inputs'],
 'every composition of shipped wrappers to depth two over every shipped base model, every experiment and parameter vector of the alphabets',
 'Tests look at single wrappers with hand-written attributes; compositions grow combinatorially.',
 [S+'derived_models.py', S+'parallel.py', S+'abstract_model.py'],
 [('DerivedModel delegation', S+'derived_models.py: DerivedModel'), ('Simulatable properties', S+'abstract_model.py')],
 None, ['public attributes and methods of Model'])

prop('C10', 'Time-dependent models move each particle independently and exactly as stated',
 "Under a time step every particle is displaced, independently for each particle and experiment, by noise with the stated mean zero and covariance (fixed, learned from the particle's own hyperparameters, or scaled by the stated function of the experiment), only in the stated parameters, and hyperparameters and other parameters never move. "
 "Models without dynamics leave every parameter unchanged and return one copy per experiment, without touching their input; in an update the step acts once per datum, after the weights have been updated.",
 ['schedules', 'inputs', 'configurations'],
 'every answer of the noise source, every choice of diagonal or full covariance, learned or fixed, with or without scaling, any number of particles and experiments',
 'Tests check shapes and a seeded variance; enumeration of the noise with distinct experiments, index subsets and learned covariances is not done.',
 [S+'derived_models.py', S+'smc.py', S+'test_models.py'],
 [('RandomWalkModel', S+'derived_models.py'), ('GaussianRandomWalkModel', S+'derived_models.py'), ('UnknownT2 / coin base timestep', S+'abstract_model.py')],
 None, ['update_timestep return value'])

prop('C11', 'Domains enumerate exactly their members, consistently and reversibly',
 "For every integer, real, multinomial and product domain the enumerated values, the member count, membership tests, the example point and the data types reported agree with each other: every listed value is a member, no value is listed twice, the count of a finite domain is the length of its list, and finite domains list exactly the integers, products or count vectors they describe. "
 "A list of points is in the domain only if every point is. "
 "Converting multinomial outcomes of any array shape, or lists of product outcomes, to regular arrays and back is the identity, whatever the memory layout. "
 "The domains that models report list exactly the outcomes of each experiment.",
 ['inputs', 'configurations'],
 'every small real, integer, multinomial and product domain, nested products, unbounded ends, and every array shape',
 'Tests check one or two instances of each domain; degenerate bounds, nested products and array shapes are not covered.',
 [S+'domains.py'],
 [('values / n_members / in_domain', S+'domains.py'), ('to_regular_array / from_regular_array', S+'domains.py')],
 None, ['Domain API'])

prop('C12', 'Prior distributions sample what they say, in the stated shape and support',
 "For every distribution and every answer of the random source, sampling n times yields n rows of as many variables as stated, all inside the support, and over the random source the samples follow the stated law: independent rows, factors of products independent and in order, mixtures in the stated proportions, and moments that match the stated mean and variance. "
 "Sampling leaves the distribution itself unchanged. "
 "Post-selected samples satisfy the model, are distributed as accepted draws of the base and fail only after the stated number of attempts, constrained-sum samples add up to the stated total, and particle sampling draws each particle with its weight and never a weightless one.",
 ['schedules', 'inputs', 'configurations'],
 'every answer sequence of the random source, including rejections, every sample size including 0 and 1, and nested combinations',
 'Tests check moments of seeded samples with tolerance; full enumeration of the random answers and combinators with rejection are out of reach.',
 [S+'distributions.py'],
 [('Distribution.sample', S+'distributions.py'), ('PostselectedDistribution', S+'distributions.py'), ('MixtureDistribution', S+'distributions.py'), ('ParticleDistribution.sample', S+'distributions.py')],
 None, ['sample return value'])

prop('C13', 'Posterior means, covariances and entropies are those of the weighted particles',
 "The reported mean, covariance, correlation, expectation of a function, entropy and effective sample size are exactly the weighted sums over the current particles, covariances are symmetric and positive semidefinite up to rounding, and reporting never changes the particles. "
 "Permuting particles or adding weightless particles changes none of them, and splitting a particle into two with its weight shared changes no mean or covariance. "
 "Clusters are those of density clustering of the particles, with weighted distances when asked for, and cluster moments obey the laws of total mean and variance: averaging cluster means and covariances by cluster weight gives back the overall moments.",
 ['inputs', 'configurations'],
 'every particle set on a small lattice with every weight pattern including zeros, every permutation, split and clustering',
 'Tests compare a handful of seeded particle clouds with known Gaussians within tolerance.',
 [S+'distributions.py', S+'utils.py', S+'clustering.py'],
 [('est_mean / est_covariance_mtx / est_entropy', S+'distributions.py: ParticleDistribution'), ('particle_meanfn / particle_covariance_mtx', S+'utils.py, distributions.py'), ('particle_clusters', S+'clustering.py')],
 None, ['ParticleDistribution methods'])

prop('C14', 'Credible regions hold the stated mass with the heaviest particles',
 "A credible region at a level consists of particles whose total weight is at least that level, takes heavier particles before lighter ones, needs no more particles than necessary, grows with the level, and at level one holds every particle of positive weight. "
 "Inside and outside parts, when asked for, partition the particles, and marginal slices or lists of parameters report just those parameters. "
 "The hull of a region has exactly its extreme particles as vertices and contains all of its particles, the ellipsoid contains them within the stated tolerance with the least volume and is reported as centre and covariance, and membership tests agree with the hull, ellipsoid or covariance ellipsoid they name, for one point or many.",
 ['inputs', 'configurations'],
 'every particle set on a small lattice with every weight pattern including ties and zeros, every level in [0,1], every slice of parameters',
 'Tests check a few seeded clouds at one or two levels; ties, zero weights and levels exactly at partial sums are not covered.',
 [S+'distributions.py', S+'utils.py'],
 [('est_credible_region', S+'distributions.py'), ('region_est_hull / region_est_ellipsoid / in_credible_region', S+'distributions.py'), ('mvee / in_ellipsoid', S+'utils.py')],
 None, ['ParticleDistribution region methods'])

prop('C15', 'Bayes risk and information gain equal the average over actual updates',
 "For every experiment the Bayes risk equals the outcome-averaged expected weighted squared error of the posterior mean that performing the experiment and updating would leave, and the expected information gain equals the outcome-averaged relative entropy from the present to the updated weights. "
 "Both are finite and nonnegative even when outcomes or particles have zero probability, risk never exceeds the present weighted variance, information gain never exceeds the entropy of the outcomes or of the weights, and evaluating experiments together equals evaluating them one at a time.",
 ['inputs', 'configurations'],
 'every particle set, weighting, model and batch of experiments of the alphabets, including zero-probability outcomes and models whose outcome count varies by experiment',
 'Tests compare one closed-form case; consistency with real updates for all batches and edge cases is not checked.',
 [S+'smc.py'],
 [('bayes_risk', S+'smc.py'), ('expected_information_gain', S+'smc.py'), ('hypothetical_update', S+'smc.py')],
 None, ['bayes_risk and expected_information_gain values'])

prop('C16', 'Experiment design keeps the best guess and heuristics give legal experiments',
 "Over any sequence of guesses, given as arrays or functions, a design step that remembers guesses returns the candidate of lowest objective (Bayes risk plus scaled cost, or times a power of the cost) among those compared since the last restart, for every local optimiser including none, even if the caller overwrites returned designs; only the optimised field differs from the guess, guesses are not modified, and every experiment is typed as the model demands. "
 "Every guess heuristic yields, for every state of the updater and every random answer, an experiment of the model's type with every requested field set as documented: the sparse heuristic follows its geometric schedule by the number of data seen, the particle guess heuristic uses the inverse distance of two different particles drawn from the posterior with one of them as inversion and gives up with an error after the stated attempts, and an ensemble calls each member with its stated probability.",
 ['histories', 'schedules', 'configurations'],
 'every sequence of guesses, optimisers and restarts to the bound, every pair of drawn particles, every number of data seen, every choice of optional fields',
 'Tests run one optimiser path and a shape check; sequences of guesses with remembered best, and all random answers, are not explored.',
 [S+'expdesign.py'],
 [('ExperimentDesigner.design_expparams_field', S+'expdesign.py'), ('PGH, ExpSparseHeuristic', S+'expdesign.py'), ('OptimizationAlgorithms', S+'expdesign.py')],
 None, ['returned experiment parameters'])

prop('C17', 'Scores and Fisher information are those of the likelihood',
 "For every differentiable model the score is the gradient of the log-likelihood with respect to each model parameter, numerical (with any per-parameter step) or analytic, for every possible outcome. "
 "Where all outcomes are possible the Fisher information is the outcome-averaged outer product of scores: symmetric, positive semidefinite, finite, additive in shots, shaped by parameters, parameter vectors and experiments, and the same in a batch as alone, also when the number of outcomes varies with the experiment. "
 "The tracked Bayesian information matrix starts at the one given or estimated from the prior, grows with every datum by the information expected under the prior, or under the posterior for the adaptive one, and neither tracking nor reading it alters the caller's arrays or the inference.",
 ['inputs', 'histories', 'configurations'],
 'every differentiable model, numerical or analytic, parameter vectors, experiments and outcomes in batches; every history of updates of a bound-tracking updater',
 'Tests check one precession model against its closed form; other models, batches, outcomes of zero probability and histories are not covered.',
 [S+'score.py', S+'test_models.py', S+'rb.py', S+'derived_models.py', S+'smc.py', S+'finite_difference.py', S+'abstract_model.py'],
 [('ScoreMixin', S+'score.py'), ('DifferentiableModel.fisher_information', S+'abstract_model.py'), ('SMCUpdaterBCRB', S+'smc.py'), ('FiniteDifference', S+'finite_difference.py')],
 None, ['score, fisher_information, current_bim'])

prop('C18', 'Likelihood calls and simulations are counted exactly once each',
 "For every model and stack of wrappers, each likelihood evaluation adds outcomes times parameter vectors times experiments to the count of likelihood calls of the model it is made on, and each simulation adds parameter vectors times experiments times repeats to its count of simulations, no matter how calls are mixed, wrapped or batched; every wrapped model counts the calls it receives in the same way. "
 "Counts start at zero, queries do not change them, updating counts one evaluation per particle and datum, and counts belong to one model object: evaluating one model never changes the counts of another that it does not wrap.",
 ['histories', 'configurations'],
 'every sequence of likelihood and simulation calls with mixed batch sizes on every shipped model and wrapper stack',
 'Tests check no counts at all; the counts feed the performance tables and the resource accounting of adaptive approximations.',
 [S+'abstract_model.py', S+'derived_models.py', S+'test_models.py', S+'rb.py'],
 [('call_count / sim_count', S+'abstract_model.py: Simulatable, Model'), ('wrapper delegation', S+'derived_models.py')],
 None, ['call_count and sim_count'])

prop('C19', 'Distributed evaluation equals serial evaluation for all engine schedules',
 "For every number of engines, every division of the particles or experiments among them and every order in which engines answer, the parallelised model returns exactly the likelihoods and time steps that the wrapped model returns serially, and simulated outcomes with the same law, shape and layout, with particles and experiments in their original order and none lost or repeated, also with fewer particles than engines; a batch no larger than the serial threshold (ten per engine unless given) never leaves the process. "
 "An engine failure surfaces as an error, never as a wrong answer, and leaves the posterior as it was. "
 "Models, distributions and updaters survive being pickled or deep-copied at any point of a history: the copy has the same configuration, counts and state, behaves identically on the same data and random answers, and shares nothing with the original; only the view of the engines stays behind.",
 ['schedules', 'configurations', 'fault_sequences'],
 'every engine count, particle count, completion order, serial threshold and position of an engine failure up to the bound',
 'Tests for parallel models need a running cluster and are skipped here, so none of this is exercised.',
 [S+'parallel.py', S+'derived_models.py', S+'smc.py'],
 [('DirectViewParallelizedModel.likelihood', S+'parallel.py'), ('simulate_experiment chunks', S+'parallel.py'), ('pickling support', S+'parallel.py, smc.py')],
 None, ['return values through a controlled stand-in for the cluster view'])

prop('C20', 'Performance tests record each trial truthfully and isolate failing trials',
 "A performance test records for each experiment the true parameters at the time it is performed (as they evolve under the true model), the experiment used, the simulated integer outcome, and the estimate, quadratic loss (in the weights of the estimation model, aligned at the right when the true model has another number of parameters) and resample count that an identical hand-run fed with the recorded outcomes has after that experiment, and the elapsed time of its update; outcomes are simulated from the true model at the true parameters, which are the ones given (as a vector or a one-row array) or independently drawn from the true prior (by default the prior) for each trial. "
 "Over many trials, a trial that fails at any step, in any pattern, is masked without affecting the record of any other trial when failures are allowed, and raises otherwise; the records stay in order of dispatch whatever the order of evaluation. "
 "The progress bar is started once with the number of trials, updated with the number of completed trials after each success, and finished once. "
 "The numerical error settings of the caller are the same afterwards as before, whether the test succeeded or failed.",
 ['fault_sequences', 'histories', 'configurations'],
 'every subset of failing trials and every step at which a trial fails, for each failure policy, serial or with a parallel apply function, any completion order',
 'Tests run one short performance test and check shapes; injected failures and error settings afterwards are not examined.',
 [S+'perf_testing.py'],
 [('perf_test', S+'perf_testing.py'), ('perf_test_multiple', S+'perf_testing.py'), ('numpy_err_policy / timing', S+'perf_testing.py')],
 None, ['performance record arrays, masks, progress calls, numpy error state'])

prop('C21', 'Tomography bases and models represent quantum states and the Born rule exactly',
 "Every shipped operator basis (Gell-Mann, Pauli), and every tensor product of them, consists of the stated operators in the stated order with their labels, is Hermitian and orthonormal with first element proportional to the identity and all others traceless, and converting an operator to parameters and back is the identity for operators and for parameter vectors, single or in batches, and preserves dimensions and inner products; covariance matrices act as superoperators exactly as they do on parameter vectors. "
 "Canonicalising parameters with at least one positive eigenvalue replaces each operator by its positive part (also with repeated eigenvalues), renormalised to unit trace unless subnormalised states are allowed, leaves valid states and the given array as they are, and keeps any further parameter. "
 "Measurement likelihoods are the Born rule clipped to probabilities, for any number of outcomes, states and experiments at once. "
 "Diffusive models move each state by traceless Gaussian steps of its own rate times the square root of the experiment's duration and end in valid states, so that particles stay valid states through every history of measurement, update and resampling. "
 "Plotted rebit states (particles, means and true states, those given) are their Bloch vectors on axes named after the basis, with the covariance ellipse at the stated number of standard deviations or the hull of the credible region.",
 ['inputs', 'configurations'],
 'every built-in basis and product up to dimension eight, every state on small lattices including pure, degenerate, mixed and unphysical ones, every measurement in the alphabet',
 'Tests check a few bases and a handful of states; degenerate unphysical states and products are not covered.',
 [S+'tomography/bases.py', S+'tomography/models.py'],
 [('TomographyBasis', S+'tomography/bases.py'), ('TomographyModel.canonicalize / trunc_neg_eigs / likelihood', S+'tomography/models.py')],
 None, ['basis and model API'])

prop('C22', 'Random states and measurements in tomography are always physical',
 "For every random answer, state priors produce parameter vectors of unit-trace positive semidefinite states of at most the stated rank (exactly that rank for generic answers, real for real priors) in the dimension and basis given, following their defining ensembles independently from sample to sample; channel priors give Choi states which are trace preserving exactly when requested; fiducial-average priors are mixtures of a fiducial state and a fixed state with exactly the requested mean, for every mean including pure, rank-deficient and maximally mixed ones; and products of priors give product states of independent factors. "
 "The Pauli heuristic measures the projector onto the positive eigenspace of a uniformly chosen non-identity Pauli operator, the stabilizer heuristic a pure state that is an eigenvector of a clock-and-shift operator, process heuristics independent pairs of both at the stated normalisation, and the best-of-k heuristic the candidate of largest posterior covariance expectation. "
 "Measurement settings built by a heuristic always fit the experiment type of the model (plain, diffusive or multi-shot) and carry the further fields given.",
 ['schedules', 'configurations'],
 'every answer of the discretised random source for every shipped state prior and heuristic in dimensions two to four',
 'Tests draw a few seeded samples and check shapes only.',
 [S+'tomography/distributions.py', S+'tomography/expdesign.py'],
 [('DensityOperatorDistribution subclasses', S+'tomography/distributions.py'), ('StateTomographyHeuristic subclasses', S+'tomography/expdesign.py')],
 None, ['samples and designed experiments'])

prop('C23', 'Numerical helpers satisfy their defining identities on all inputs',
 "Simplex coordinates convert back and forth for every point of the simplex, boundary included, and always land on the simplex; matrix square roots are positive, square back to the positive part of the matrix and report their error; outer products, weighted means and covariances, particle and cluster distances equal their definitions; multinomial and binomial probabilities and samples equal exact enumeration, for either way of giving the probabilities and any array of experiments. "
 "Joining and separating structured arrays loses nothing whatever the field types and memory layout. "
 "Minimum-volume enclosing ellipsoids contain their points to the requested tolerance, are minimal and follow scalings and shifts; ellipsoid volume and membership agree with the quadratic form. "
 "Gate fidelities and depolarizing parameters convert into each other, and finite differences are central differences along each argument with its own step. "
 "Uniquifying keeps first occurrences in order; printed durations and values with uncertainties read back to what was printed, to the precision stated.",
 ['inputs'],
 'every input on exact small lattices in dimensions one to four, including zeros, ties, singular matrices and boundary points',
 'Tests check one or two examples per helper.',
 [S+'utils.py', S+'metrics.py'],
 [('to_simplex / from_simplex', S+'utils.py'), ('sqrtm_psd', S+'utils.py'), ('multinomial_pdf / binomial_pdf', S+'utils.py'), ('mvee', S+'utils.py')],
 None, ['helper return values'])

prop('C24', 'Simple estimators give the same answer for every way of giving the same data',
 "The one-call estimators accept data as a file name, an open file, a plain array, a structured array with its columns in any order, or a data frame, with the same results, leave the data unchanged, and use every row exactly once and in order with its own counts, times or lengths, shots and reference flag, however many rows there are. "
 "Without resampling, the weights are the product of the binomial likelihoods of the rows, and in general the answers are those of updating row by row, checking for resampling after each. "
 "They return the mean and covariance of that posterior, as numbers for one parameter, and the updater on request. "
 "The prior covers exactly the requested parameter ranges, and missing columns or data of a wrong type are reported.",
 ['inputs', 'configurations', 'schedules'],
 'every format, column order and small data set of the alphabet with the same answers of the random source',
 'Tests feed two formats once each and check the mean loosely.',
 [S+'simple_est.py'],
 [('load_data_or_txt', S+'simple_est.py'), ('do_update', S+'simple_est.py'), ('simple_est_prec / simple_est_rb', S+'simple_est.py')],
 None, ['returned mean, covariance and updater'])

prop('C25', 'Likelihood estimation from simulation is hedged, bounded and stops as promised',
 "For every sequence of simulator outcomes the estimated likelihood of an outcome is the hedged frequency of that outcome among all simulations made of that parameter and experiment pair, complements sum to one, and values are proper probabilities, strictly so with hedging. "
 "Simulation starts with the stated first batch, proceeds in the stated steps, and stops at the first stage at which the hedged binomial standard error of every pair is within tolerance, however many simulations that takes. "
 "Every simulation and every likelihood evaluation made is counted, estimates for one pair never use simulations of another, only the pairs asked for are simulated, and updates use exactly the estimated values. "
 "Parameters out of range and simulators with other than two outcomes are rejected, and everything else is passed on to the simulator.",
 ['schedules', 'inputs', 'configurations'],
 'every sequence of simulator outcomes up to the sample limit, every tolerance, step and limit in the alphabet, several pairs at once',
 'Tests check one seeded approximation within tolerance; stopping, hedging and accounting for every outcome sequence are not checked.',
 [S+'ale.py'],
 [('ALEApproximateModel.likelihood', S+'ale.py'), ('binom_est_p / binom_est_error', S+'ale.py')],
 None, ['likelihood of the approximate model, simulator calls'])

prop('C26', 'Mixing approximate and exact likelihoods splits particles by weight only',
 "When an updater mixes exact and approximate likelihoods, the particles evaluated exactly are the heaviest ones: the fewest that hold at least the stated fraction of the weight, all those at or above the threshold, and at least the stated minimum number; ties are broken evenly at random. "
 "Every particle is evaluated by exactly one of the models at each update, keeps its place and weight, and evolves under the exact model; the split is decided anew from the current weights each time. "
 "Posterior, evidence, resampling and returned likelihoods are exactly those of the mixture, so with identical models they equal those of the plain updater for every split. "
 "All particles, no particles or a single particle on either side are ordinary cases.",
 ['inputs', 'histories', 'configurations'],
 'every weighting of small particle sets with ties and zeros, every mixing fraction, every history of updates to the bound',
 'Tests contain no case for the mixed updater.',
 [S+'smc.py'],
 [('MixedApproximateSMCUpdater.hypothetical_update', S+'smc.py')],
 None, ['posterior and which model evaluates which particle'])

prop('C27', 'Inference is a deterministic function of data, prior and random answers',
 "The same answers of the random source, the same data and the same prior give the same result (to rounding): particles, weights, records, designed experiments, samples, estimates, regions and driver results do not depend on what ran before in the process, on what other updaters exist or how their steps interleave with this one's, on whether model, prior or resampler objects have been used before or are shared with another run, on the process or its hash seed, or on uninitialised memory. "
 "Seeding NumPy's generator makes every run repeatable. "
 "Runs leave NumPy's error policy and print options as they were. "
 "A reset updater has the particles, the weights and the future of a new updater given the same random answers, whatever happened to it before; resetting only some parameters redraws exactly these from the prior, leaves the others, and keeps the weights only if asked to; giving both a size and parameters is an error; records of past data are kept.",
 ['histories', 'schedules', 'configurations'],
 'every ordered pair of scenario runs in one process, every updater option, resets after any history',
 'Tests run each scenario in isolation, never twice with the same answers and never after contaminating runs.',
 [S+'smc.py', S+'resamplers.py', S+'distributions.py', S+'abstract_model.py', S+'derived_models.py'],
 [('per-instance state', S+'smc.py, resamplers.py, abstract_model.py'), ('reset', S+'smc.py: SMCUpdater.reset')],
 None, ['full observable state after each scenario'])

prop('C28', 'Posterior marginals, meshes, plots and summaries show the weighted particles',
 "A posterior marginal is reported on the requested number of equally spaced points covering exactly the requested range (by default that of the particles), is nonnegative, and is the derivative of the cumulated weight of the particles along the requested parameter (zero below the first particle, linear between particles), so that it integrates to the weight in the range and does not depend on the order of the particles; smoothing convolves it with a Gaussian of the stated width, reflected at the ends. "
 "A two-parameter mesh gives, at each mesh point, the weighted sum of Gaussians of the stated width around the particles at the values of the two parameters reported for that very point, so swapping the parameters transposes it, and integrating out one parameter gives the smoothed marginal of the other, with the posterior mean and covariance. "
 "Curves and contours are drawn from exactly these, labelled with the parameter's name and marked at a given true model. "
 "The summary of an updater names its models and each parameter with its posterior mean and standard deviation, and the resample count. "
 "None of these changes the updater.",
 ['inputs', 'configurations'],
 'every small particle set and weighting, parameter, resolution, range and smoothing width of the alphabet; histories',
 'Tests contain no numerical check of marginals or meshes.',
 [S+'smc.py'],
 [('posterior_marginal, plot_posterior_marginal', S+'smc.py'), ('posterior_mesh, plot_posterior_contour', S+'smc.py'), ('_repr_html_', S+'smc.py')],
 None, ['posterior_marginal, posterior_mesh'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for d in P:
        f.write(json.dumps(d) + '\n')
print(len(P))
