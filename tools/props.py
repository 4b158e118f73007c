"""Single source of properties.jsonl (run tools/gen.py to regenerate the two committed files)."""
M = 'src/lop/models/'
A = 'src/lop/active_learning/'
P = 'src/lop/probits/'
K = 'src/lop/kernels/'
U = 'src/lop/utilities/'


def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe:
        a['observe_at'] = observe
    a['hook_needed'] = None
    return {'id': id, 'title': title, 'statement': statement,
            'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a}


PROPS = [
 p('P01', 'Every accepted judgement is kept exactly once, about the right sample',
   "After any sequence of accepted submissions and resets a preference model holds exactly the samples and judgements submitted since the last reset: every comparison, category rating and bounded rating refers to the sample it was made about, none is lost, duplicated or altered (bounded ratings are only clamped to [0.001, 0.999]). The data fit (log likelihood) of any reward assignment is the sum over exactly those judgements, whatever the order and batching of the submissions. The caller's arrays are neither modified nor aliased by the model.",
   ['histories', 'inputs'], 'all submission/reset histories up to the depth bound over the small alphabet of submission forms (comparisons, category ratings, bounded ratings, explicit sample indices, empty label lists), for both preference models',
   'Tests add one or two fixed batches; index re-basing only matters from the second batch on, per judgement type, and for every interleaving of types.',
   [M+'PreferenceModel.py', P+'PreferenceProbit.py', P+'OrdinalProbit.py', P+'AbsBoundProbit.py'],
   [('index re-basing of appended labels', 'PreferenceModel.add'), ('per type label store', 'PreferenceModel.y_train'), ('sum over probits', 'PreferenceModel.log_likelyhood_training'), ('forgetting', 'PreferenceModel.reset')],
   ['training samples and labels', 'log likelihood of the training labels']),
 p('P02', 'A refused submission leaves the model untouched',
   "A submission the model refuses - a bounded rating outside [0,1], a category rating below 1, samples with a different number of features than those already held, or a label container of an unsupported type, also for prior points - leaves samples, judgements, data fit and later predictions exactly as if it had never been made. Later submissions then refer to the right samples.",
   ['histories', 'fault_sequences'], 'every placement of up to two refused submissions in all short submission histories',
   'Tests assert that an exception is raised, never what the model looks like afterwards or what the next submission does.',
   [M+'PreferenceModel.py'], [('validation before commit', 'PreferenceModel.add')], ['samples, labels, predictions']),
 p('P03', 'Predictions are never stale',
   "A prediction always reflects all data submitted or cleared before it: for any interleaving of submissions, resets, pruning of unreferenced samples, predictions (whole or chunked), explicit fits and query selections, a model predicts what a brand new model holding the same current data predicts (within the solver tolerance, for any random initialisation).",
   ['histories', 'schedules'], 'all interleavings of the operations up to the depth bound for the preference GP, the linear preference model and the regression GP, and every random-initialisation pattern of the menu',
   'Lazy fitting makes freshness depend on the history of calls; tests exercise add followed by predict.',
   [M+'PreferenceGP.py', M+'PreferenceLinear.py', M+'PreferenceModel.py', M+'GP.py'],
   [('lazy fit flag', 'PreferenceModel.optimized'), ('lazy fit', 'PreferenceGP.predict / predict_large, PreferenceLinear.predict')], ['mean and variance of predict']),
 p('P04', 'Preference GP predictions are the Laplace posterior at the MAP rewards',
   "For any mix of comparisons, category ratings and bounded ratings, the preference GP's fitted rewards maximise log likelihood plus Gaussian process log prior, and its predicted mean, variance and covariance are the Laplace approximation around that maximum (before any data: zero mean and the kernel's variance). Chunked prediction of many points equals one-shot prediction. With normalisation requested the fitted rewards have maximum absolute value 1, or span exactly [0,1].",
   ['inputs', 'configurations'], 'all small label graphs of the alphabet (types, directions, repeats, contradictions) on 2-5 samples in 1-3 dimensions, several kernels and noise settings, several random initialisations, and query sets of 1-33 points',
   'Tests compare a few fixed datasets with loose orderings, never with an independent optimum and posterior.',
   [M+'PreferenceGP.py', M+'PreferenceModel.py'],
   [('damped Newton mode search', 'PreferenceGP.find_mode, PreferenceModel.newton_update, binary_line_search'), ('posterior', 'PreferenceGP.predict'), ('chunking', 'PreferenceGP.predict_large')], ['predict, predict_large, calling the model, covariance of the last prediction']),
 p('P05', 'Regression GP is exact Gaussian conditioning',
   "After any sequence of additions and resets, with scalar or per-sample noise and with or without a mean function, the regression GP's mean, variance and covariance at any query are those of exact Gaussian conditioning on all the samples held. How the samples were batched or ordered does not matter; without data the answer is the mean function and the kernel's prior variance; the caller's arrays are not aliased.",
   ['histories', 'inputs'], 'all addition/reset histories up to the depth bound over the batch alphabet, kernels, noise forms and mean functions',
   'Tests check one batch with a default noise.',
   [M+'GP.py', M+'Model.py'], [('appending samples and noise', 'GP.add'), ('conditioning', 'GP.predict'), ('forgetting', 'GP.reset')], ['predict, covariance of the last prediction']),
 p('P06', 'Linear preference model is the maximum likelihood linear reward',
   "When the judgements do not determine an unbounded reward, the linear preference model's weights maximise the likelihood of all held judgements, and its prediction for every point is the inner product with those weights; ordering points by prediction is therefore invariant to how judgements were batched. Separable comparisons are at least all reproduced. One dimensional samples are refused.",
   ['inputs', 'histories'], 'all small label multisets of the alphabet in 2-3 dimensions, batchings, random initialisations',
   'Tests fit one dataset and check the sign of a prediction.',
   [M+'PreferenceLinear.py', M+'PreferenceModel.py'], [('Newton fit', 'PreferenceLinear.optimize'), ('chain rule through the features', 'PreferenceLinear.derivatives'), ('prediction', 'PreferenceLinear.predict')], ['predict']),
 p('P07', 'Judgement likelihoods are proper probabilities with the documented orientation',
   "For any rewards and any parameter-setting history the likelihood of a comparison, a category rating and a bounded rating is the documented model (Gaussian-difference probit with -1 meaning the first sample is preferred; cumulative-probit categories; beta density with probit mean link): probabilities of all outcomes sum to one, a better reward never makes the better outcome less likely, log likelihood is the log of the likelihood and sums over judgements.",
   ['inputs', 'configurations'], 'full grids of reward values, label values, sample-index patterns and parameter-setting sequences of the alphabet',
   'Tests pin individual values at default parameters.',
   [P+'PreferenceProbit.py', P+'OrdinalProbit.py', P+'AbsBoundProbit.py', P+'ProbitBase.py'],
   [('z score', 'PreferenceProbit.z_k'), ('break points', 'OrdinalProbit.set_b'), ('beta parameters', 'AbsBoundProbit.get_alpha_beta')], ['likelihood, log_likelihood, likelihood_all_pairs, cdf']),
 p('P08', 'Likelihood derivatives are the derivatives of the likelihood',
   "For every judgement type, reward vector, parameter setting and index pattern (including repeated judgements and samples), the gradient and the negative Hessian used for fitting are the derivatives of the log likelihood with respect to the rewards, and are zero for samples without judgements. For comparisons and bounded ratings the derivatives of that Hessian with respect to rewards and parameters, and the gradient with respect to the parameters, are exact as well.",
   ['inputs', 'configurations'], 'grids of rewards x labels x index patterns x parameters x parameter-setting sequences',
   'Tests check gradients on a handful of fixed vectors where no sample is rated twice.',
   [P+'PreferenceProbit.py', P+'OrdinalProbit.py', P+'AbsBoundProbit.py', M+'PreferenceGP.py', M+'PreferenceLinear.py'],
   [('derivatives', 'derivatives of each probit'), ('third derivatives', 'calc_W_dF, calc_W_dHyper'), ('parameter gradient', 'grad_hyper'), ('accumulation', 'add_up_mat, add_up_vec, add_up_W_partial')], ['derivatives, calc_W_dF, calc_W_dHyper, grad_hyper']),
 p('P09', 'Covariances are symmetric, positive semi-definite and pointwise consistent',
   "For every kernel, every sum/product composition and every parameter setting made at any time before, the covariance of two sample sets consists of exactly the kernel's values at the pairs of samples (plus observation noise on the diagonal only when a set is compared with itself), so it is symmetric, positive semi-definite where the kernel is, transposes with its arguments, and agrees for one dimensional and column shaped samples. Evaluating it changes neither the inputs nor the kernel.",
   ['inputs', 'configurations', 'histories'], 'all kernels and compositions up to depth 2, parameter-setting sequences, sample-set shapes of the alphabet',
   'Tests evaluate single kernels at fixed points.',
   [K+'KernelFunc.py', K+'RBF_kern.py', K+'RBF_kern_zeroed.py', K+'PeriodicKern.py', K+'LinearKern.py'],
   [('vectorised covariance', 'cov of each kernel'), ('composition', 'DualKern')], ['cov, call']),
 p('P10', 'Kernel and hyperparameter gradients match what they differentiate',
   "For every kernel, composition and parameter setting made at any time before, the parameter gradient at a pair is the derivative of the kernel's value and the matrices of parameter gradients for two sample sets are the derivatives of their covariance matrix, with respect to each parameter in the order the parameters are reported, and the gradient of the parameter prior is the derivative of the parameter prior. The kernel part of a fitted preference model's evidence gradient is the derivative of the Laplace evidence (the rewards being refitted) with respect to the kernel parameters.",
   ['inputs', 'configurations', 'histories'], 'all kernels and compositions up to depth 2, parameter-setting sequences, sample-set shapes',
   'Tests differentiate single kernels at a few points and never through compositions after a parameter change.',
   [K+'KernelFunc.py', K+'RBF_kern.py', K+'RBF_kern_zeroed.py', K+'PeriodicKern.py', K+'LinearKern.py', U+'gamma_dist.py', M+'PreferenceGP.py'],
   [('gradients', 'gradient, cov_gradient of each kernel'), ('prior', 'param_likli, grad_param_likli')], ['gradient, cov_gradient, param_likli, grad_param_likli']),
 p('P11', 'A query holds the asked number of distinct, new, preferred-first candidates',
   "Whatever the learner, scores, random draws, preference set (none, count, index set, Pareto) and previous selection, a selection returns exactly the asked number of distinct valid candidate indices, none previously selected, taking non-preferred candidates only once the preferred ones are exhausted, and starting with the best predicted eligible candidate when the best is always to be included (and nothing was selected before). With set-aside reporting it also returns the candidates it passed over, disjoint from the selection. It fails only when not enough candidates remain.",
   ['inputs', 'configurations'], 'all combinations of small candidate counts, requested sizes, previous selections, preference specifications, learner flags and, for random draws, every answer',
   'Tests try a few combinations for one learner; the option cube and the random draws are not covered.',
   [A+'ActiveLearner.py', A+'AcquisitionBase.py'], [('selection loop', 'ActiveLearner.select'), ('preference set', 'ActiveLearner.get_prefered_set_of_pts'), ('best point', 'ActiveLearner.select_best'), ('pair picking', 'ActiveLearner.pick_pair_from_metric')], ['return value of select']),
 p('P12', 'Score-based learners pick the best-scoring eligible candidate',
   "Best, worst, upper-confidence and generalised-variance upper-confidence selection add, step by step, an eligible candidate whose score (mean; minus mean; mean plus weight times standard deviation; mean plus weight times the root of the covariance determinant including everything already chosen) is maximal for the model's current predictions, and report that score. Random selection can reach every eligible candidate and only those.",
   ['inputs', 'configurations'], 'all rankings and ties of small score vectors, covariance patterns, previous selections, weights, preference sets, and every random draw',
   'Tests check one dataset per learner.',
   [A+'BestLearner.py', A+'UCBLearner.py', A+'GV_UCBLearner.py', A+'RandomLearner.py', M+'Model.py'], [('greedy choice', 'select_greedy of each learner')], ['select, reported selection metric']),
 p('P13', 'Information-based learners pick the query of maximal expected information',
   "Given the reward samples drawn from the model, acquisition-based pair, set and rating selection and mutual-information and Bayesian-information selection return an eligible query whose expected alignment / information, computed from its definition over those samples, is maximal among eligible queries, and report that value; among tied best pairs any may be returned.",
   ['inputs', 'configurations'], 'all small sample matrices of the alphabet (rankings and magnitudes), eligible sets, previous selections, alignment measures and random tie-break draws',
   'Tests only check that some index comes back.',
   [A+'AcquisitionSelection.py', A+'AcquisitionBase.py', A+'AbsAcquisition.py', A+'MutualInfoLearner.py', A+'BayesInfoGain.py'], [('expected alignment', 'select_pair, select_greedy'), ('tie break', 'ActiveLearner.pick_pair_from_metric'), ('rating integral', 'AbsAcquisition.select_greedy')], ['select, reported selection metric']),
 p('P14', 'Query-type schedules follow their documented probabilities at every call count',
   "A learner that mixes comparison and rating queries by schedule picks, at the n-th query since it was attached to its model, the type its documented schedule gives for n (fixed switch, alternation, constant, peaked, reverse-peaked, and the decision variants with their checkpoints), for every outcome of the coin; the answer is that sub-learner's own selection, ratings ask for one candidate and comparisons for the requested number. The caller's options reach the sub-learner unchanged.",
   ['histories', 'schedules'], 'all coin-outcome sequences over histories of up to about 17 queries (merged on schedule state) and all metric answers at the decision checkpoints',
   'The behaviour depends on the number of earlier queries and random draws; tests make one or two calls.',
   [A+'MixedStrategy.py', A+'RateChooseLearner.py'], [('probability', 'mixed_probability of each strategy'), ('checkpoints', 'MixedDecision.select, MixedDecision2.select'), ('counter', 'num_calls')], ['return value of select']),
 p('P15', 'Query-type comparisons return the query type with the larger benefit',
   "A learner that compares a comparison query with a rating query returns the comparison sub-learner's query when its (weighted) benefit is larger, the rating sub-learner's query when that benefit is larger, and either on a tie; the equal-check variant returns the rating when the compared pair shares a feature value and the effect size (paired eta squared) between their sampled rewards is below its limit, and the alignment-decision variant alternates until its decision phase and then follows the larger alignment. Both benefits are computed on one shared set of reward samples drawn for this call's candidates, and the model's data are unchanged afterwards.",
   ['histories', 'inputs'], 'all orderings and ties of the benefits, weights, tie-break draws, and sequences of calls with different candidates',
   'Tests use real metrics where only one branch is taken.',
   [A+'RateChooseLearner.py', A+'MixedTypeDecision.py', A+'MixedStrategy.py'], [('comparison', 'select of RateChooseLearner, MixedComparision, MixedComparisionEqualChecking, AlignmentDecision'), ('shared samples', 'set_samples, unset_samples')], ['return value of select']),
 p('P16', 'Selecting, predicting and inspecting never change what the model knows',
   "Any sequence of selections (by any learner), predictions, likelihood evaluations and plots leaves the model's samples, judgements, hyperparameters and subsequent predictions, and the caller's candidate array, previous-selection and preference collections, unchanged.",
   ['histories'], 'all sequences up to the depth bound of read-only operations over models x learners',
   'Tests never look at the arguments or the model after a selection.',
   [A+'ActiveLearner.py', A+'MixedTypeDecision.py', M+'PreferenceGP.py', M+'PreferenceModel.py'], [('argument handling', 'ActiveLearner.select'), ('temporary label masking', 'AlignmentDecision.determine_query_type')], ['samples, labels, hyperparameters, predictions, arguments']),
 p('P17', 'Synthetic users answer according to their utility',
   "The perfect user always chooses a best option under its utility and rates by the fixed increasing logistic of the utility; the noisy user chooses each option with the softmax probability of its scaled utility and rates by the logistic of the scaled utility plus its Gaussian noise draw, so ratings stay in [0,1]; the comparisons reported for a choice are exactly (chosen better than each other option), in the library's preference encoding. Choice probabilities are a proper distribution for any rewards, invariant to shifting them.",
   ['inputs', 'schedules'], 'all reward orderings and magnitudes of the alphabet, scale settings, and every answer of the random draw',
   'Tests check averages of random draws.',
   [U+'synthetic_user.py', U+'human_choice_model.py', U+'preference_pairs.py'], [('choice', 'choose, sample_human_choice, p_human_choice'), ('pairs', 'choose_pairs, gen_pairs_from_idx'), ('rating', 'rate')], ['choose, choose_pairs, rate, p_human_choice']),
 p('P18', 'User calibration reaches the requested accuracy',
   "After calibration of the second noisy user to a requested choice and rating accuracy, the mean probability (over all pairs of the calibration problems) of choosing, respectively rating higher, the better option equals the requested accuracies whenever attainable, and its utility scaling maps the calibration problems' utility range onto the configured rating range. The first noisy user's calibration, done on simulated answers, ends within its tolerance of the requested accuracies or is refused. Calibration depends only on the last call, not on earlier calibrations.",
   ['inputs', 'histories'], 'small sets of calibration problems x requested accuracies x utility functions x sequences of calibrations x subset draws',
   'Tests calibrate once to one accuracy with a wide tolerance.',
   [U+'HumanChoiceUser2.py', U+'synthetic_user.py'], [('calibration', 'learn_beta, get_k_b, obj, rate_obj')], ['beta, sigma, k, b']),
 p('P19', 'Preference encodings mean the same thing everywhere',
   "For any values, every generated comparison list (from a choice, from a ranking, from a utility, against one sample) contains each required pair exactly once, oriented so that the encoded winner really has the higher value, and a model given those comparisons assigns a higher likelihood to the rewards agreeing with them than to the reversed rewards.",
   ['inputs'], 'all orderings with ties of up to 5 values',
   'Tests check one list of values per function.',
   [U+'preference_pairs.py', P+'PreferenceProbit.py'], [('orientation', 'get_dk, preference'), ('generators', 'gen_pairs_from_idx, ranked_pairs_from_fake, generate_fake_pairs, generate_ranking_pairs')], ['returned pairs']),
 p('P20', 'Pareto fronts and Pareto comparisons are exact',
   "The Pareto front of any candidate set is exactly the set of candidates not dominated by another one (of exact duplicates exactly one is kept), as indices or as a mask, in any dimension and order. A model asked to exploit Pareto dominance holds, after any sequence of submissions, one comparison for every ordered pair of held samples where one is strictly better in every feature - no more, no fewer - besides the submitted judgements.",
   ['inputs', 'histories'], 'all candidate sets of up to 4-5 points on small integer grids in 1-3 dimensions, all batchings of their submission',
   'Tests use two fixed sets and one submission.',
   [U+'pareto.py', M+'PreferenceModel.py'], [('front', 'get_pareto'), ('dominance comparisons', 'PreferenceModel.add')], ['get_pareto, labels of the model']),
 p('P21', 'Pruning unreferenced samples keeps every judgement attached to its sample',
   "Removing unreferenced samples (also as part of adding prior points) removes exactly the samples no judgement refers to, and every remaining judgement still refers to the same sample coordinates as before; the recorded prior range still covers exactly the surviving prior points; later submissions and predictions behave as if only the remaining samples had ever been submitted.",
   ['histories', 'inputs'], 'all submission histories of the alphabet with unreferenced samples at every position, judgement types mixed, prior points before or after, pruning at every position',
   'Tests prune one comparison-only dataset.',
   [M+'PreferenceModel.py'], [('pruning', 'PreferenceModel.remove_without_reference'), ('prior points', 'PreferenceModel.add_prior, get_prior_pts')], ['samples, labels, prior points, predictions']),
 p('P22', 'Cross-validation folds partition the samples and keep their judgements',
   "For any data and every random draw, the k folds are a partition of all samples into k balanced non-empty folds (or no folds when too few samples), and restricting judgements to an index list keeps exactly those whose samples are all in the list, renumbered to positions in the list, in every judgement type.",
   ['inputs', 'schedules'], 'all sample counts, fold counts and comparison graphs of the alphabet with every random draw, and all index lists of up to 4-5 samples in every order',
   'Folds depend on random draws; tests use a fixed seed and few graphs.',
   [U+'training_utility.py'], [('splitting', 'k_fold_x_y'), ('restriction', 'get_y_with_idx'), ], ['returned folds and labels']),
 p('P23', 'Samplers return valid samples of what they were asked for',
   "Unique-set sampling returns exactly the requested number of pairwise different sets, each of the requested number of distinct members of the source, for every random draw. The Metropolis sampler returns the requested number of states, each the accepted state of a chain that moves to the proposal exactly when the acceptance draw is below the likelihood ratio, after discarding the burn-in.",
   ['inputs', 'schedules'], 'all small source/request sizes with every random draw, and all accept/reject histories of short chains',
   'Random; tests check shapes for one seed.',
   [U+'sample_utility.py', U+'mcmc_sampling.py'], [('unique sets', 'sample_unique_sets'), ('accept/reject', 'metropolis_hastings')], ['returned samples']),
 p('P24', 'Hyperparameter vectors round-trip; hyperparameter search ends fitted',
   "Reading and writing back the hyperparameter vector of any kernel, likelihood or model changes nothing; writing a vector assigns each entry to the parameter it was reported for, whichever judgement types are present; random draws fill the vector in that same order. After a fit with hyperparameter search, for any random draws, all data are still held and predictions are those of a new model with the same hyperparameters and data.",
   ['histories', 'configurations'], 'all subsets of judgement types x likelihood/kernel configurations x set/get/randomise sequences, and searches on small datasets',
   'Tests read one vector of one configuration.',
   [M+'PreferenceModel.py', M+'PreferenceGP.py', K+'KernelFunc.py', P+'AbsBoundProbit.py', P+'PreferenceProbit.py', P+'OrdinalProbit.py'], [('vector layout', 'get_hyper, set_hyper, randomize_hyper'), ('search', 'PreferenceGP.optimize, hyperparameter_search')], ['get_hyper, kernel and likelihood parameters, predict']),
 p('P25', 'Test utility functions are pure and evaluate batches pointwise',
   "Each synthetic utility function gives every reward vector the documented value, the same whether evaluated alone or anywhere in a batch, leaves its argument unchanged, and keeps giving it until it is randomised again; randomising yields weights within the documented normalisation.",
   ['inputs', 'histories'], 'all utility functions x dimensions x batches of the alphabet x random draws x evaluate/randomise sequences',
   'Tests evaluate shapes and a few values.',
   [U+'FakeFunction.py'], [('evaluation', 'calc of each function'), ('randomisation', 'randomize of each function')], ['function values']),
 p('P26', 'Probability helpers equal their definitions',
   "The probability that a Gaussian vector is below zero agrees with its definition for independent components (exactly, by every method that supports it) and in two dimensions (full and pairing methods); the gamma density, its log and derivative agree with each other and with the definition; range normalisation maps any data increasingly into (0,1). No helper changes its arguments.",
   ['inputs'], 'grids of means, variances, correlations, dimensions, shapes and scales',
   'Tests cover a single mean/covariance.',
   [U+'probability_utility.py', U+'gamma_dist.py', U+'training_utility.py'], [('cdf', 'calc_cdf'), ('gamma', 'pdf_gamma, log_pdf_gamma, d_log_pdf_gamma'), ('normalisation', 'normalize_0_1')], ['returned values']),
 p('P27', 'Model, learner, kernel and user instances are independent',
   "Operations on one model, learner, kernel, likelihood, utility or user instance never change what another, separately constructed instance holds or answers, for every interleaving of operations on the two.",
   ['histories', 'schedules'], 'all interleavings up to the depth bound of two instances\' operation sequences, for every pair of classes of the alphabet',
   'Tests use one instance at a time.',
   [M+'PreferenceModel.py', M+'PreferenceGP.py', M+'GP.py', A+'ActiveLearner.py', A+'AcquisitionBase.py', U+'synthetic_user.py'], [('per instance state', 'constructors'), ('default arguments', 'constructors and select')], ['predictions, labels, selections, hyperparameters']),
 p('P28', 'Preference plots show every judgement pointing to the better sample',
   "Plotting a model's judgements draws exactly one line per comparison between the two compared samples with its arrow pointing from the worse to the better one, and one marker per bounded rating at its sample, in one and two dimensions, and refuses more dimensions.",
   ['inputs', 'histories'], 'all submission histories of the alphabet in one and two dimensions',
   'Tests do not look at plots.',
   [M+'PreferenceModel.py'], [('drawing', 'PreferenceModel.plot_preference')], ['lines, annotations and scatter points on the axes']),
 p('P29', 'Reward alignment measures are what they claim',
   "For any set of sampled reward assignments, the alignment matrix entry for two assignments is the named similarity of those two assignments over the representative points or queries (negative distance between soft choice distributions, symmetric log likelihood of each other's best answers, negative Pearson distance, or rank correlation): symmetric, maximal on the diagonal for the distance and correlation measures, equivariant under reordering the assignments, invariant where the measure ignores shifts, scales or monotone changes of the rewards, and the measure between two sets agrees with the measure within their union.",
   ['inputs'], 'all small sets of reward assignments (rankings and magnitudes) and query sets of the alphabet',
   'Tests compare single hand-picked matrices.',
   [A+'AcquisitionBase.py'], [('alignment', 'AcquisitionBase.alignment, alignment_between')], ['alignment, alignment_between']),
 p('P30', 'Reward samples and representative sets drawn for a query are what they claim',
   "Whenever an alignment-based learner builds a query, for every random draw and whatever was submitted, reset or queried before: its representative points are as many different samples as it was configured for (fewer only when fewer exist) out of those the model holds at that moment - together with the candidates when fewer than four are held - or exactly the points of its file; its representative queries are as many different sets as configured (at most all that exist), each of as many different representative points as the query has alternatives (two for a rating), and never mix environments of a file; the reward samples come from the model's joint prediction at the candidates followed by the representative points. Samples shared with the learner are used unchanged, at the right candidates, until they are taken back.",
   ['histories', 'schedules'], 'all submission/reset/selection histories up to the depth bound with one learner, sizes of the representative sets, point files, and the random draws of the menu',
   'Tests make one selection and look at the number of indices returned; sets left over from an earlier query, or the wrong columns, change nothing a test sees.',
   [A+'AcquisitionBase.py', A+'AcquisitionSelection.py', A+'AbsAcquisition.py', U+'sample_utility.py'],
   [('representative sets', 'AcquisitionBase.get_representative_Q'), ('reward samples', 'AcquisitionBase.get_samples_from_model'), ('sharing', 'set_samples, unset_samples')], ['get_representative_Q, get_samples_from_model, draws made during select']),
]
