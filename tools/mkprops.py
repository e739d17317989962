#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text is editable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
                  why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                  **({'observe_at': observe} if observe else {}))))
MC='pydtmc/markov_chain.py'; HM='pydtmc/hidden_markov_model.py'; ME='pydtmc/measures.py'; GE='pydtmc/generators.py'
CO='pydtmc/computations.py'; SI='pydtmc/simulations.py'; FI='pydtmc/fitting.py'; VA='pydtmc/validation.py'; IO='pydtmc/files_io.py'; UT='pydtmc/utilities.py'; AS='pydtmc/assessments.py'

prop('C01','Models accept exactly well-formed input',
 'Constructing a Markov chain (or hidden Markov model) succeeds exactly when the transition matrix is square with at least two states, every entry of the transition (and emission) matrix is a finite real number in [0,1], every row sums to 1 up to numerical tolerance, the emission matrix has one row per state and at least two columns, and the labels (if given) are the right number of distinct non-empty strings, with state and symbol names disjoint. Anything else raises a validation error, whoever the caller is, and an accepted model reports exactly the matrices, labels and sizes it was given.',
 ['inputs'],'every matrix entry value (reals, NaN, infinities), shape and label list',
 'The tests try a handful of malformed matrices; the boundary between accepted and rejected input is a condition over every entry and every row sum.',
 [MC,HM,VA,UT],[('MarkovChain.__init__ / HiddenMarkovModel.__init__',MC),('validate_transition_matrix, validate_emission_matrix, validate_labels_input',VA)])
prop('C02','Parametric generators return the documented stochastic matrix',
 'For every admissible parameter value, the identity, gambler\'s ruin, birth-death, Ehrenfest and Bernoulli-Laplace urn, Moran and Wright-Fisher, Rouwenhorst and Tauchen generators return a chain whose transition matrix is row-stochastic with entries in [0,1] and equals, entry by entry, the closed-form matrix that defines the model. Sizes and default labels follow the requested parameters, and inadmissible parameters (in the Tauchen-Hussey approximation also the degenerate ones) raise an error instead of producing a chain.',
 ['inputs','configurations'],'every real parameter in the documented range, every small size',
 'Fixtures compare a few parameter points; the formula has to hold on the whole continuous parameter range including its end points.',
 [GE,MC],[('mc_gamblers_ruin, mc_birth_death, mc_urn_model, mc_population_genetics_model, mc_approximation',GE)])
prop('C03','Chain transformations compute the chain they name',
 'The lazy, bounded (absorbing, reflecting, semi-reflecting), merged, n-th order, canonical and subchain transformations of any chain yield a valid chain whose matrix is exactly the defining formula: (1-w)P+wI, first/last row replaced by the boundary rows, (1-g)P+gQ, the matrix power, the transient-first permutation, and the restriction to all states accessible from the chosen ones. Labels follow the states they belong to and the source chain is left unchanged.',
 ['inputs'],'every transition matrix (all zero patterns) up to the size bound and every weight, order and state choice',
 'Instance-generator fixtures cover a few numeric matrices; zero patterns and parameter boundaries are not enumerated.',
 [GE,MC],[('mc_lazy, mc_bounded, mc_canonical, mc_sub',GE),('to_lazy_chain, to_bounded_chain, merge_with, to_nth_order, to_canonical_form, to_subchain',MC)])
prop('C04','Random generation honours masks and zero counts',
 'For every outcome of the random number generator, a randomly generated chain or hidden Markov model is row-stochastic, reproduces every fixed entry of the mask exactly, and has at least the requested number of null entries among the free positions (exactly that number when the draws are positive). Requests that cannot be met are rejected with an error, and the Dirichlet-process generator always returns a row-stochastic matrix. For every outcome of the draws, random_distribution returns the draws normalised by row, with negative and undefined draws taken as null, infinite ones as very large finite numbers, and rows without positive draws uniform.',
 ['inputs','configurations'],'every generator outcome (uniform draws, integers, permutations), every mask and zero count within the bounds',
 'Tests use fixed seeds, so only a few generator outcomes are ever observed.',
 [GE,MC,HM],[('mc_random, hmm_random, mc_dirichlet_process',GE),('validate_mask',VA)])
prop('C05','State classification matches the reachability structure',
 'For every chain, communicating classes, communication and accessibility matrices, is_accessible, are_communicating, recurrent and transient classes and states, absorbing states, irreducibility and the absorbing flag are exactly those defined by reachability along positive-probability transitions. Classes partition the state space, are listed by decreasing size then first state, and do not depend on how the states are labelled.',
 ['inputs'],'every zero pattern of a transition matrix up to the size bound, every positive value, every label order',
 'Fixtures hold a few dozen matrices; the property quantifies over all zero patterns and label orders.',
 [MC,CO],[('communicating_classes, recurrent_classes, transient_classes, accessibility_matrix, is_absorbing',MC)])
prop('C06','Periods, cyclic classes, aperiodicity, regularity',
 'For every chain, the period reported for each recurrent communicating class is the gcd of its return times and is listed in the order of the communicating classes, the chain is aperiodic exactly when every recurrent class has period 1, the overall period is the least common multiple over recurrent classes, the cyclic classes of an irreducible periodic chain are visited in rotation, ergodic means irreducible and aperiodic, and regular means some power of the matrix is entrywise positive. None of this depends on label names.',
 ['inputs'],'every zero pattern up to the size bound, every label order',
 'Fixtures sample a few graphs; combinations of several periodic classes with transient states and unsorted labels are not covered.',
 [MC,CO],[('calculate_periods, find_cyclic_classes',CO),('period, periods, is_aperiodic, is_regular, is_ergodic',MC)])
prop('C07','Stationary distributions are exact and complete',
 'The stationary distributions returned for any chain are one per recurrent class, each is a probability vector satisfying pi P = pi, is supported exactly on its recurrent class, and is listed in the order of the recurrent classes. An irreducible chain has exactly one, and the value does not depend on access order.',
 ['inputs'],'every transition matrix up to the size bound (all zero patterns, all positive values)',
 'Fixtures check a few numeric vectors; pi P = pi is an identity over all matrices.',
 [CO,MC],[('gth_solve',CO),('pi',MC)])
prop('C08','Absorbing-chain analysis satisfies its defining equations',
 'For every absorbing chain with transient states, the fundamental matrix is the inverse of I-Q, absorption probabilities are those of reaching each absorbing state (columns of transient states sum to one), mean absorption times solve t = 1 + Q t, and the Kemeny constant is the trace of the fundamental matrix. For every other chain these queries return None.',
 ['inputs'],'every transition matrix up to the size bound',
 'Only a few absorbing matrices are sampled by fixtures; the equations hold for all values and all state orders.',
 [ME,MC],[('fundamental_matrix, kemeny_constant',MC),('mc_absorption_probabilities, mc_mean_absorption_times',ME)])
prop('C09','Hitting probabilities and hitting times are the minimal solutions',
 'For every chain and every target set, hitting probabilities are the minimal non-negative solution of h=1 on targets, h=Ph elsewhere, so they are zero exactly from states that cannot reach the target and one from states that reach it almost surely. Hitting times are zero on targets, infinite exactly where the hitting probability is below one, and otherwise the minimal solution of t = 1 + P t.',
 ['inputs'],'every transition matrix up to the size bound and every non-empty target set',
 'Fixtures cover few chains; the distinction between certain, possible and impossible hitting depends on every zero pattern.',
 [ME],[('mc_hitting_probabilities, mc_hitting_times',ME)])
prop('C10','First passage, recurrence times and committors solve their equations',
 'For every ergodic chain, mean first passage times to all states or to a target set solve m = 1 + P m off target with zero on target, passage between sets is the stationary-weighted average over origins, mean recurrence times are the reciprocals of the stationary probabilities, and forward/backward committors solve their boundary value problems. For a non-ergodic chain the answer is None.',
 ['inputs'],'every transition matrix up to the size bound and every admissible choice of state sets',
 'Fixtures cover a few numeric chains.',
 [ME,MC],[('mc_mean_first_passage_times_to/_between, mc_mean_recurrence_times, mc_committor_probabilities',ME)])
prop('C11','Mean number of visits equals the expected visit counts',
 'For every chain and pair of states, the mean number of visits is the expected number of future visits to the target starting from the origin: zero when the target is not accessible, infinite when it is accessible and recurrent, and otherwise the corresponding entry of the sum of all positive powers of the matrix. This holds whatever the order and labels of the states.',
 ['inputs'],'every transition matrix up to the size bound',
 'Fixtures cover a few numeric chains; the classification into zero, finite, infinite entries depends on every zero pattern.',
 [ME],[('mc_mean_number_visits',ME)])
prop('C12','Finite-horizon measures equal the path sums that define them',
 'For every chain, starting distribution or state, reward vector and horizon: expected rewards equal the sum of P^k r for k=0..steps, expected transitions equal the summed step distributions times P, first passage probabilities equal the probability that the first visit happens at each step, first passage rewards equal the rewards collected while avoiding the target, and redistribution iterates d -> dP. Sequence probability is the product of the transition probabilities along the sequence.',
 ['inputs','histories'],'every matrix, distribution, reward vector and state choice within the size and horizon bounds',
 'Fixtures check a few horizons; accumulating errors appear only for particular step counts relative to the chain size.',
 [ME,SI,MC],[('mc_expected_rewards, mc_expected_transitions, mc_first_passage_probabilities, mc_first_passage_reward',ME),('mc_redistribute, mc_sequence_probability',SI)])
prop('C13','Time correlations and relaxations follow the matrix powers',
 'For every chain with a unique stationary distribution and every observation sequence, the time correlation at lag t equals the stationary-weighted product of the first observation counts with P^t applied to the second, and the time relaxation equals the starting distribution pushed t steps and weighted by the observation counts. Results for a list of time points equal the results for each time point taken alone, and chains with several stationary distributions yield None.',
 ['inputs','histories'],'every matrix, sequence and set of time points within the bounds',
 'Fixtures use few time-point lists; the incremental computation over arbitrary gaps is not covered.',
 [ME],[('mc_time_correlations, mc_time_relaxations',ME)])
prop('C14','Structural predicates decide their defining relation',
 'For every chain, symmetric, doubly stochastic, reversible (detailed balance with the unique stationary distribution), stochastically monotone and canonical are reported exactly when the defining relation holds up to numerical tolerance. The adjacency matrix and the density reflect exactly the positive transition probabilities, and the entropy rate equals -sum pi_i p_ij log p_ij (None when the stationary distribution is not unique).',
 ['inputs'],'every transition matrix up to the size bound, away from the tolerance boundary',
 'Fixtures cover a few matrices; the relations must be decided for all real values.',
 [MC],[('is_symmetric, is_doubly_stochastic, is_reversible, is_stochastically_monotone, is_canonical, adjacency_matrix, density, entropy_rate',MC)])
prop('C15','Lumping accepts exactly the lumpable partitions',
 'For every chain and every admissible partition into consecutive blocks, lumping succeeds exactly when each block\'s states have equal total probability into every block, up to numerical tolerance; the lumped chain then has these block-to-block probabilities as its matrix and joins the labels of each block. The list of lumping partitions contains exactly the non-trivial consecutive partitions that lumping accepts.',
 ['inputs'],'every transition matrix and consecutive partition up to the size bound',
 'Fixtures use a few matrices; lumpability is an equality over all real values, and floating-point rounding is never exercised systematically.',
 [GE,CO,MC],[('mc_lump',GE),('find_lumping_partitions',CO)])
prop('C16','Simulated and predicted walks follow the model',
 'For every outcome of the random number generator, a simulated walk starts in the requested state, takes only transitions (and emits only symbols) of positive probability, has the requested length unless it stops at the first arrival in the requested final state or symbol, and reports labels and indices of the same walk. A one-step move is the same law, and the deterministic prediction of a chain always moves to the unique most probable next state and returns None when it is not unique.',
 ['inputs','schedules'],'every generator outcome, every matrix and zero pattern within the bounds',
 'Tests use fixed seeds; boundary draws of the generator are never seen.',
 [SI,MC,HM],[('mc_simulate, mc_predict, hmm_simulate',SI),('next, simulate, predict',MC)])
prop('C17','HMM decoding returns the exact filter, posterior and likelihood',
 'For every hidden Markov model, initial distribution and symbol sequence, decoding returns the log-probability of the observed symbols, posterior state probabilities that are the exact smoothed probabilities (each column sums to one), and forward and backward quantities consistent with the scaling factors; scaled and unscaled decoding agree. Sequences of probability zero return None.',
 ['inputs'],'every transition and emission matrix, initial distribution and symbol sequence within the bounds',
 'Fixtures hold a few numeric models; the identity with the sum over all hidden paths is over all real values.',
 [ME,HM],[('hmm_decode',ME),('HiddenMarkovModel.decode',HM)])
prop('C18','HMM prediction returns a most probable explanation',
 'For every hidden Markov model, initial distribution and symbol sequence, MAP prediction picks for each position a state of maximal posterior probability, and Viterbi prediction returns a state path that maximises the joint probability of path and symbols together with the logarithm of that probability; impossible sequences return None. Both report one state per symbol.',
 ['inputs'],'every model, initial distribution and symbol sequence within the bounds, away from ties',
 'Fixtures hold a few models; optimality against every other path is a statement over all real values.',
 [SI,HM],[('hmm_predict',SI)])
prop('C19','HMM estimation and restriction are exact',
 'Estimating a hidden Markov model from observed states and symbols yields transition and emission matrices equal to the relative frequencies of the observed transitions and emissions, uniform for states never left or never observed. Restricting a model to a subset of states and/or symbols yields a valid model with exactly those labels whose rows are the original ones renormalised over the retained entries (uniform when nothing remains).',
 ['inputs'],'every sequence within the length bound; every model and every admissible subset',
 'Fixtures cover a few sequences and restrictions.',
 [GE,HM],[('hmm_estimate, hmm_restrict',GE)])
prop('C20','Sequence fitting returns the estimator it names',
 'For every observed sequence, the maximum-likelihood fit has transition probabilities equal to the observed transition frequencies of each state (with a constant added to every count when smoothing is requested) and uniform rows for states never left; the maximum a posteriori fit equals the mode of the Dirichlet posterior for the given hyperparameters. The result is always row-stochastic over the given labels.',
 ['inputs'],'every sequence within the length bound and every admissible hyperparameter matrix',
 'Fixtures cover a few sequences; per-state normalisation has to hold for every transition count.',
 [FI],[('mc_fit_sequence',FI)])
prop('C21','Dictionary, matrix and graph conversions round-trip',
 'Converting any model to a dictionary, matrix or graph and back yields an equal model with the same labels and probabilities in the same order. Building a model from a non-negative matrix or weighted graph normalises each row by its sum and makes all-zero rows uniform; dictionaries that are incomplete or not row-stochastic are rejected.',
 ['inputs'],'every model up to the size bound, every label order; every non-negative matrix',
 'Conversion fixtures use a few models with unremarkable labels.',
 [MC,HM,UT,VA],[('to_dictionary, from_dictionary, to_graph, from_graph, to_matrix, from_matrix',MC),('validate_dictionary, validate_graph',VA)])
prop('C22','Saving to a file and loading it back gives the same model',
 'For every model and each supported format (csv, json, txt, xml), writing the model to a file and reading it back yields an equal model: same labels, same order, identical probabilities. Files whose content is not a complete row-stochastic model are rejected with an error rather than loaded.',
 ['inputs','configurations'],'every matrix and emission matrix up to the size bound and label choices, each format',
 'Tests round-trip a few fixture models.',
 [IO,MC,HM],[('read_*/write_*',IO),('to_file, from_file',MC)])
prop('C23','States and symbols may be named by index or by label alike',
 'Every operation that takes a state, symbol, list of them, or sequence gives the same answer whether they are given by label or by position, lists are order-insensitive where they denote sets, and out-of-range indices, unknown labels, duplicates, booleans and mixed lists are rejected with a validation error. Integer parameters are accepted exactly within their documented limits.',
 ['inputs'],'every integer, label and label list within the bounds',
 'Validation fixtures sample a few values; the accepted set is a condition over all integers and labels.',
 [VA,MC,HM],[('validate_label, validate_labels_current, validate_sequence, validate_integer, validate_status',VA)])
prop('C24','Equal models are equal to each other and hash alike',
 'Two models compare equal exactly when they have the same probabilities and the same labels in the same order (and for hidden Markov models the same emissions and symbols); equality is symmetric and agrees with inequality of any single differing entry or label. Equal models always have equal hashes, also when zeros carry different signs, and a model never equals an object of another kind.',
 ['inputs'],'every pair of models up to the size bound',
 'Tests compare a model with an identical copy only.',
 [MC,HM],[('__eq__, __hash__',MC)])
prop('C25','Queries never change a model, its arguments or each other',
 'No sequence of queries, transformations or conversions changes the matrices or labels a model reports, modifies arguments passed by the caller, or changes the answer of any other query: each answer equals the one a freshly built model gives, in any order. Modifying arrays obtained from, or passed to, a model afterwards does not alter the model.',
 ['histories','inputs'],'every matrix up to the size bound and every pair of operations in either order',
 'Tests build a fresh model per case and never compare the answers after a history of calls.',
 [MC,HM,ME,'pydtmc/decorators.py'],[('cached_property',"pydtmc/decorators.py"),('p, states, __cache',MC)])
prop('C26','Function fitting applies the named quadrature rule',
 'For every transition function, interval and number of states, fitting a chain to a function evaluates the function at the nodes of the named quadrature rule inside the interval, multiplies by its weights and normalises each row (uniform when a row vanishes). Trapezoid, Simpson, midpoint (Newton-Cotes) and Niederreiter nodes and weights equal their textbook definition, and invalid function values are reported as errors.',
 ['inputs'],'every function value and interval, small sizes',
 'Fixtures use two functions on the default interval.',
 [FI],[('mc_fit_function',FI)])
prop('C27','Mixing time and sensitivity match their definitions',
 'For every ergodic chain the mixing time with unit jump is the first step count at which the distance between the evolved distribution and the stationary one is at most the cutoff, with a larger jump it is measured along multiples of the jump, and it is None for non-ergodic chains or when it is not reached in the allowed iterations. For every irreducible chain the sensitivity matrix is the derivative of the chosen stationary probability with respect to the matrix entries, and None otherwise.',
 ['inputs'],'every transition matrix up to the size bound, every starting distribution and jump within the bounds',
 'Fixtures cover a few chains and jump 1.',
 [ME],[('mc_mixing_time, mc_sensitivity',ME)])
prop('C28','Likelihood-ratio assessments compute the stated statistics',
 'Every assessment returns the statistic of its test, the chi-square tail probability of that statistic for the degrees of freedom of the test, and a verdict that is exactly "p-value not below the significance level". The statistics are: first order, the sum over middle states of the Pearson contingency statistics of (previous, next) pairs (with Yates correction for 2x2 tables); Markov property, the Pearson comparison of observed and expected triples; stationarity, the likelihood ratio of block transition frequencies against the pooled ones; homogeneity, 2 sum f log((f/N_k)/(F/N)) over sequences and transitions; theoretical compatibility, 2 sum f_ij log(f_ij/(f_i p_ij)), where a sequence that uses a transition of probability zero is rejected outright.',
 ['inputs'],'every theoretical chain and every sequence (or set of sequences) within the bounds, every significance level, whatever the labels',
 'Fixtures cover a few sequences.',
 [AS],[('assess_first_order, assess_markov_property, assess_stationarity, assess_homogeneity, assess_theoretical_compatibility',AS)])
prop('C29','HMM fitting returns the fixed point of the re-estimation it names',
 'Fitting a hidden Markov model starts from the guess, re-estimates transition and emission matrix until they no longer change and returns exactly that fixed point as a model with the given states and symbols. Baum-Welch replaces each matrix by the row-normalised expected counts of transitions (the one from the initial status to the first symbol included) and emissions given all sequences; the map and mle/viterbi variants by the row-wise frequencies along the most probable states of each sequence, averaged over the sequences. Sequences that are impossible under the current matrices are left out. When some state has no expected transition or emission, or no fixed point is reached, a ValueError is raised; guesses, sequences or initial statuses that do not fit together (shapes, row sums, unknown symbols, shared names) are rejected with a ValidationError.',
 ['inputs'],'every guess and every set of symbol sequences within the bounds',
 'Fixtures fit a few random guesses.',
 [FI,HM],[('hmm_fit',FI),('HiddenMarkovModel.fit',HM)])
prop('C30','Spectral quantities and entropies match their definitions',
 'Determinant and rank are those of the transition matrix; for ergodic chains the spectral gap, mixing rate, relaxation rate and implied timescales are the documented functions of the eigenvalue moduli, however close they are to 0 or 1, and for all others they are None; topological entropy is the logarithm of the spectral radius of the transition graph; entropy rate is the entropy of one step under the unique stationary distribution (None if there are several), and its normalised form is divided by the topological entropy.',
 ['inputs'],'every transition matrix','Only a few matrices are sampled.',
 [CO,MC],[('eigenvalues_sorted, slem',CO)])
prop('C31','Aggregations, reversible projections and AR(1) approximations are valid',
 'Aggregating an ergodic chain to s states returns exactly s states whose transition probabilities are those of the original chain lumped under its stationary distribution for some partition of its states into s groups, whatever the method. The closest reversible chain keeps the states, is in detailed balance with the given distribution and minimises the plain or weighted Frobenius distance over all such chains (a reversible chain is returned as it is). The Adda-Cooper approximation gives the transition probabilities of the process between cells of equal probability; the Tauchen-Hussey approximation those of the Gauss-Hermite quadrature.',
 ['inputs'],'every chain, target distribution or parameter set','Only a few cases are sampled.',
 [GE],[('mc_aggregate_spectral_*, mc_closest_reversible, mc_approximation',GE)])
prop('C32','Plots show the model they are given',
 'Every plot represents the states, probabilities and walks of the model it is given.',
 ['inputs'],'every model','Plot tests only check that a figure is produced.',
 ['pydtmc/plotting.py'],[('plot_*','pydtmc/plotting.py')])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
print(len(P),'properties')
for p in P:
    if len(p['title'])>80: print('LONG',p['id'],len(p['title']))
