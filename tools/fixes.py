"""Rebuilds the "fixed" entries of known_findings.json from the map below and the log of /repo (run by hand)."""
import json, os, subprocess
MAP = [l.split(None, 2) for l in '''
f59b66f C08 PoisonedModel accepted neither or both of tol and n_samples
621beeb C09 MultinomialModel.n_outcomes raised NameError
c9d9b98 C07 MultinomialModel simulated with uninitialised probabilities of the last outcome
3761ecc C18 repeated simulations of binomial, multinomial and Gaussian models were counted once
9cb2668 C18 likelihood calls of MLEModel were not counted
3c43404 C08 repeated experiments of GaussianHyperparameterizedModel shared their noise
8d49161 C09 setting n_outcomes_cutoff recursed without end
280c39b C07 simulation failed for varying or non-contiguous outcome domains
7a67c41 C07 rounding in simulated outcomes could yield an impossible outcome
466d464 C09 the scale matrix of models that add parameters did not cover these
86f6e0e C09 derived models claimed a constant number of outcomes for any underlying model
626a0c4 C08 scalar experiments were not passed on under multinomial and differentiable binomial models
2e4629e C09 a wrong covariance size raised AttributeError instead of the intended error
dcfc818 C10 models that add parameters passed them on to the canonical form and time step of the wrapped model
7cd36cc C02 the reset policy overwrote the fresh weights with zeros
e48b5ec C27 a partial reset passed incomplete parameter vectors to canonicalize
1b0abff C15 Bayes risk and information gain were NaN for impossible outcomes and weightless particles
61115a6 C17 SMCUpdaterBCRB dropped most arguments of SMCUpdater
0e4d85f C03 SMCUpdaterBCRB modified the initial_bim array of the caller
f2a65d1 C26 the mixed updater failed when all particles use the same model
49dac50 C05 Liu-West resampling redrew invalid particles around centres of other particles
2d3aac7 C05 rounding of the total weight could make Liu-West resampling fail with IndexError
8db3257 C12 rounding of the total weight could make particle sampling return a weightless particle
2bb04f1 C04 after a reset to another number of particles, resampling went back to the old number
a6a313a C07 binomial simulation failed for one parameter vector and several experiments
3a76f16 C08 the Gaussian hyperparameterised likelihood was not a density over outcomes
7a8f47a C06 rounding could make multinomial likelihoods NaN
b33202d C11 ProductDomain rejected a single list of domains
9592a3b C11 conversion of single or non-contiguous multinomial outcomes failed
9f6c187 C23 separating non-contiguous structured arrays failed
8cc5af4 C12 ConstrainedSumDistribution samples missed negative totals
39d0626 C12 DiscreteUniformDistribution.sample returned the wrong shape
03a5c34 C12 MixtureDistribution rejected dist_args=None
fa51c12 C12 HilbertSchmidtUniform.sample ignored the number of samples and failed above one qubit
7a736b4 C12 InterpolatedUnivariateDistribution returned NaN for draws above the rounded end of the CDF
9a32a30 C13 particle_clusters failed without weights, its documented default
dd2da8c C13 weighted clustering took distances between rows of the distance matrix
e011008 C13 cluster means and covariances were not normalised by the cluster weight
bb8b6da C13 est_cluster_covs failed for models with one parameter
d177f58 C01 particle weights were left unnormalised after clipping negative weights
5390cdc C14 est_credible_region failed at level one and took one particle too many at exact partial sums
b5ec39c C14 posterior covariance ellipsoids of listed parameters used the diagonal instead of the covariance
87e5def C14 region_est_ellipsoid returned the inverse of the documented covariance matrix
7d7c429 C16 ExpSparseHeuristic failed with a time field and no other fields
e711e59 C16 designing experiments from callable guesses failed
35029d6 C16 stored guesses were not compared by their objective for every algorithm
f042ae9 C16 the best known experiment aliased arrays handed to the caller
471e203 C16 NCG experiment design never optimized
f6777ba C17 Fisher information failed for models whose outcome count varies
d6224d4 C19 pickling a parallelized model dropped most of its state
22d809a C19 parallelized models gave empty chunks to engines when there were fewer models than engines
89c7b61 C19 simulated outcomes of parallelized models were joined along the wrong axis
dc91f85 C19 random walk models could not be pickled
81cf8ed C20 perf_test failed for true_mps given as a single vector, the documented form
3a90169 C20 a failing trial left the NumPy error policy of perf_test_multiple in force
c43acf9 C20 perf_test_multiple reported the index of a trial as the number of completed trials
d3f8bcc C21 truncating negative eigenvalues distorted states with repeated eigenvalues
1189c53 C22 tomography.models.heisenberg_weyl_operators used QuTiP without importing it
3c26664 C22 RandomStabilizerStateHeuristic could not choose from its operators
9fd5a2b C22 state heuristics given a basis used the dimension of the model instead
035ec8b C22 BestOfKMetaheuristic failed for diffusive tomography models
574eb63 C22 TensorProductDistribution could not be constructed
db7c8ee C22 Ginibre states did not carry the dimensions of their basis, so they could not be combined with others
2e7a3e9 C22 GADFLIDistribution failed for means with a zero eigenvalue and for the maximally mixed mean
cbb5752 C21 rebit plots used a matplotlib setting that no longer exists
9530524 C23 from_simplex gave NaN on the boundary of the simplex
76818e1 C23 assert_sigfigs_equal accepted anything for negative numbers
cb20f27 C23 join_struct_arrays failed for arrays that are not contiguous
79e2165 C23 format_uncertainty dropped the leading digits of values and uncertainties below one
a695090 C23 sample_multinomial failed for output shapes of several dimensions
5e19275 C23 rescaled_distance_mtx ignored the scale matrix when only its second argument was an updater
228ac57 C24 simple estimation failed for data files of one row
e170e8d C24 simple_est_prec considered frequencies below the minimum feasible one
9a48cc7 C24 data_to_params failed for scalar experiment types given by name
223796c C25 ALEApproximateModel drew samp_step rather than min_samp samples to begin with
786ebf2 C28 posterior_mesh assigned each density to the mirrored mesh point
940d3f5 C28 posterior_marginal smoothed by more than the requested width at low resolution
860cc32 C21 plot_rebit_posterior failed without a true state, and for priors without a known mean
8d1f09c C12 HilbertSchmidtUniform drew from the Bures ensemble
4cd235d C11 the number of members of a multinomial domain was computed in floats: off by one from about 10^8 members
87f4492 C11 a multinomial domain with a single element failed
'''.strip().splitlines()]
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, 'known_findings.json')
K = [e for e in json.load(open(p)) if e['status'] == 'known']
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s', '0d122fb..HEAD'], capture_output=True, text=True).stdout.splitlines()
have = {h for h, _, _ in MAP}
for l in log:
    if l.split()[0] not in have: print('unmapped', l)
for h, prop, what in MAP:
    if not any(l.startswith(h) for l in log): print('not in the log', h)
    K.append(dict(id='FIXED-' + h, property=prop, status='fixed', commit=h, what='fixed: property=%s %s %s' % (prop, h, what)))
json.dump(K, open(p, 'w'), indent=1)
print(len(K))
