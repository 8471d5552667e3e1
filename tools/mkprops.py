#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run from /verif: python3 tools/mkprops.py)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mechanism],
                               observe_at=observe, hook_needed=None)))

AUX, OUT, FUZ, MAC = 'lom/auxiliary_functions.py', 'lom/_numba/lom_outputs.py', 'lom/_numba/lom_outputs_fuzzy.py', 'lom/machine.py'
SC, MU, MW = 'lom/_numba/posterior_score_fcts.py', 'lom/_numba/matrix_updates_numba.py', 'lom/matrix_update_wrappers.py'
LU, LW, MM, EX = 'lom/_numba/lambda_updates_numba.py', 'lom/lambda_update_wrappers.py', 'lom/_numba/max_machine_sampler.py', 'lom/experiments.py'

p('C01', 'Logical products equal the truth table of the requested model',
  'For every model name OUTER-INNER over AND, NAND, OR, NOR, XOR, NXOR (XOR meaning "exactly one"), any factors with entries -1/1 and any number of rows, columns and latent dimensions, each entry of the generated data is 1 exactly when OUTER, applied over latent dimensions to INNER applied across the factors, is true, and -1 otherwise. '
  'The general generator (two or more factors), the fast generator, the per-entry scalar functions, the Boolean tensor product and the random Boolean-product generator all agree with that table.',
  ['inputs', 'configurations'],
  'All 36 model names, 2 to 4 factors, all entry patterns, shapes 1..n and latent sizes from 1 to beyond 127; all generator entry points.',
  'Tests sample ten random vector pairs of length 3 per implemented 2D model with an oracle built from the same operator table; 3D scalar functions, other lengths, and the 28 non-implemented names are not compared with an independent table.',
  [AUX, OUT, LU],
  [('operator table', AUX + ':get_lop'), ('general generator', AUX + ':lom_generate_data'), ('fast generator', AUX + ':lom_generate_data_fast'), ('scalar product functions', OUT), ('dispatch', LU + ':get_scalar_output_function_2d/_3d')],
  ['lom_generate_data', 'lom_generate_data_fast', 'get_scalar_output_function_2d/3d', 'boolean_tensor_product', 'generate_orm_product'])

p('C02', 'Fuzzy products are exact probabilities under independent factors',
  'For every implemented model and any factor entries given as probabilities, the fuzzy product of two or three factors equals the exact probability that the crisp product is 1 when all factor entries are independent Bernoulli variables with these probabilities; it therefore lies in [0,1] and coincides with the crisp product on 0/1 entries. '
  'The general fuzzy generator, which takes and returns values on the [-1,1] scale, gives the same probability for every one of the 36 models.',
  ['inputs', 'configurations'],
  'All implemented models in 2D and 3D, all 36 models for the general generator, all probability vectors including 0 and 1, all latent sizes.',
  'One test compares three random 2D vectors per model of length 3 against formulas from the same module; no test evaluates any 3D fuzzy function or compares with an enumerated expectation.',
  [FUZ, AUX, LU],
  [('fuzzy scalar functions', FUZ), ('fuzzy operator table', AUX + ':get_fuzzy_lop'), ('fuzzy dispatch by arity', AUX + ':lom_generate_data_fast'), ('general fuzzy generator', AUX + ':lom_generate_data_fuzzy')],
  ['lom_generate_data_fast(fuzzy=True)', 'get_scalar_output_function_2d/3d(fuzzy=True)', 'lom_generate_data_fuzzy'])

p('C03', 'Any requested model becomes an equivalent supported model',
  'Adding a layer with any of the 36 model names yields a supported model plus flags such that the supported model, on the factors negated iff factor inversion is flagged, produces the requested model\'s data negated iff data inversion is flagged; the layer\'s data matrix is negated exactly when that flag is set. '
  'The array the caller passed in is never altered by this, and a layer can equally be created from a shape alone. '
  'An unknown model name is rejected with an error, leaving the machine and the data as they were.',
  ['inputs', 'configurations'],
  'All 36 names (and unknown names), any data with missing entries, any factors, 2 and 3 axes, data given or shape only.',
  'Tests only use the eight canonical names, for which nothing is inverted or renamed.',
  [AUX, MAC],
  [('canonical translation', AUX + ':canonise_model'), ('equivalence pairs', AUX + ':replace_equivalent_model'), ('layer creation', MAC + ':Machine.add_layer')],
  ['layer.model', 'layer.invert_data', 'layer.invert_factors', 'data()', 'caller array'],
  [('invert_data', 'data matrix was negated', MAC), ('invert_factors', 'caller must negate factors', MAC)])

p('C04', 'Single-entry updates target the exact full conditional',
  'Updating one factor entry of an implemented two- or three-factor model changes its value with probabilities whose ratio (from -1 to 1, over from 1 to -1) equals its posterior odds given everything else: the likelihood ratio of the observed data, where each entry agrees with the logical product with probability sigmoid(lambda), times the odds of its Bernoulli prior. '
  'Missing (0) data entries contribute nothing, entries not selected for update do not move, and this holds for every factor, at any data size and any lambda.',
  ['inputs', 'configurations'],
  'All 8 models, 2D and 3D, every factor axis and entry, data in {-1,0,1}, lambda from 0 to very large, priors in (0,1), more than 127 (and 32767) affected data entries.',
  'Tests update OR-AND at lambda 0 or 10000 only, without missing data or prior; the other models are only run from the ground truth, where a wrong conditional rarely shows.',
  [SC, MU, MW, MAC],
  [('posterior score functions', SC), ('sampler factory', MU + ':make_sampling_fct_onechild'), ('accept/flip rule', MU + ':flip_metropolised_gibbs_numba'), ('axis alignment', MW + ':get_sampling_fct')],
  ['factor values after one sampling sweep under a controlled random source'])

p('C05', 'Updates inside hierarchies combine child, parent and prior evidence',
  'In machines with stacked layers, an entry that has a child layer, one or two parent layers, or both (including unobserved data entries that only have parents) is updated with probabilities whose ratio equals its posterior odds: child likelihood times, for every parent layer, the odds implied by that layer\'s own model output and its own lambda, times the Bernoulli prior odds. '
  'Structures that are not supported (more than two parents) are rejected with an error instead of being sampled incorrectly.',
  ['inputs', 'configurations'],
  'Child model and parent models drawn independently from the implemented ones, 2D or 3D child layers, any attached factor, any lambdas and priors.',
  'No test builds more than one layer.',
  [MU, MW, MAC],
  [('one child + one parent', MU + ':make_sampling_fct_onechild_oneparent'), ('parents only', MU + ':make_sampling_fct_nochild_*'), ('two parents', MU + ':make_sampling_fct_*_twoparents'), ('structure dispatch', MW + ':get_relatives_models')],
  ['matrix values after one sampling sweep under a controlled random source'])

p('C06', 'A full sampling sweep leaves the exact posterior invariant',
  'If the current factor values are drawn from the exact posterior given data, lambda and priors, then after one complete inference sweep over a factor, or over all factors, they are again distributed according to the exact posterior, for every implemented model. '
  'Sweeps visit every free entry and rows do not influence each other beyond the model.',
  ['inputs', 'histories'],
  'All 8 models, 2D and 3D, small shapes whose posterior can be enumerated, with missing data, priors and arbitrary scan orders.',
  'Tests assert one deterministic outcome at extreme lambda; a distribution over outcomes cannot be settled by single runs.',
  [MU, SC, MAC],
  [('sequential in-place scan', MU + ':make_sampling_fct_onechild'), ('sweep over matrices', MAC + ':Machine.infer')],
  ['distribution of factor values after one sweep over replicated rows / replicated machines'])

p('C07', 'Lambda is set to the smoothed fraction of correct predictions',
  'After an update, the noise parameter of a layer of an implemented model equals max(0, logit((P+a)/(N+a+b))), where N counts the observed (non-zero) child entries, P those that equal the logical product of the current factors, and (a,b) is the beta prior (default (1,1)) in force at that moment. '
  'It is finite and non-negative for positive a and b, in 2D and 3D, also for layers whose child is a factor of another layer.',
  ['inputs', 'configurations'],
  'All models (by any of their names), 2D/3D, all data in {-1,0,1} including entirely missing, all factor states, positive priors.',
  'One test checks OR-AND with a perfect fit and no missing data.',
  [LU, LW, MAC],
  [('prediction counter', LU + ':make_correct_predictions_counter'), ('closed-form update', LU + ':make_lbda_update_fct')],
  ['layer.lbda() after inference with fixed factors'])

p('C08', 'Whatever the user fixed never changes during inference',
  'Matrices declared fixed, individual entries marked as fixed, fixed lambdas and the observed data keep exactly the values they had, through burn-in, sampling, annealing and repeated inference calls, and in every recorded sample (automatic clean-up aside, which removes whole dimensions); this holds for all logical models, for the max model and for the q-threshold model. '
  'The data array supplied by the caller for a fixed matrix is not modified either.',
  ['inputs', 'histories', 'configurations'],
  'Random masks over any factor, random choices of fixed matrices and lambdas, 2D/3D/hierarchical/max/q-threshold models, several inference calls.',
  'No test sets fixed entries; the fixed flag is only used for data whose constancy is never asserted.',
  [MU, MW, MM, MAC],
  [('per-entry skip', MU + ' samplers'), ('max sampler skip', MM + ':draw_MAX_AND_2D'), ('fixed flag filter', MAC + ':Machine.infer')],
  ['values and traces after inference'],
  [('fixed_entries', '1 marks an entry that must not move', MAC), ('fixed', 'matrix/parameter excluded from sampling', MAC)])

p('C09', 'Burn-in and sampling follow the requested schedule',
  'Inference performs at least burn_in_min and, unless that is larger, at most burn_in_max burn-in sweeps, and then exactly no_samples recorded sweeps; each sweep updates every free matrix once and then every free lambda once, except that lambdas are left alone in the first fix_lbda_iters of the burn_in_min sweeps. '
  'After burn_in_min sweeps, burn-in ends early exactly when, over a complete window of the last convergence_window sweeps, the mean of every free lambda in the first and the second half of the window differ by less than the tolerance on the probability scale. '
  'With annealing, a scalar lambda rises linearly during the burn_in_min sweeps and equals its initially given value at their end. The machine reports how many burn-in sweeps were made.',
  ['histories', 'configurations'],
  'All schedules (min, max, window, tolerance, fix iterations, number of samples), all sequences of lambda values, one or several layers, annealing on and off.',
  'Tests run a handful of fixed schedules and never look at how many sweeps were made or when convergence was declared.',
  [MAC, AUX],
  [('two-phase burn-in', MAC + ':Machine.burn_in'), ('convergence rule', AUX + ':check_convergence_single_trace'), ('sampling loop', MAC + ':Machine.infer')],
  ['calls to user-assigned update functions', 'layer.lbda.val during burn-in'])

p('C10', 'Recorded samples are faithful snapshots of the chain',
  'After inference every sampled matrix and lambda holds exactly no_samples records; record t is the value held at the end of sampling sweep t (not an alias of the live state), matrix records only contain -1 and 1, the last record equals the current value, and the lambda record t is the estimate implied by the factor records t. '
  'The reported mean is the average over these records (or the current value before any inference), setting a matrix to its MAP value takes the sign of that mean (zero counting as -1), and a further inference call replaces the records.',
  ['inputs', 'histories'],
  'All models, 2D/3D/hierarchical, any sample count and any number of inference calls.',
  'Tests only look at final accuracy; they never read a trace.',
  [MAC],
  [('allocation', MAC + ':Trace.allocate_trace_arrays'), ('recording', MAC + ':Trace.update_trace'), ('mean', MAC + ':Trace.mean'), ('MAP', MAC + ':MachineMatrix.set_to_map')],
  ['trace', 'mean()', 'set_to_map()'],
  [('trace', 'recorded samples', MAC), ('trace_index', 'next record', MAC)])

p('C11', 'Every reconstruction technique equals its definition',
  'For implemented logical models in 2D and 3D the reconstruction is a probability in [0,1] that equals: the logical product of the current factors (point_estimate), of the sign-thresholded posterior means (factor_map), the exact expectation under independent entries with the posterior means (factor_mean, factor_mean_old), or the average over recorded samples of their logical products (mc). '
  'Noisy emission maps p to p*s+(1-p)*(1-s) with s the sigmoid of the mean lambda, disabling the probability mapping returns 2p-1, and fixed factors or fixed lambdas contribute their value. '
  'A lazy request returns the most recent reconstruction, or computes one if there is none.',
  ['inputs', 'histories', 'configurations'],
  'All models, arities, techniques and option combinations; any trace contents and current state; factors partially fixed.',
  'Tests only threshold two techniques at .5 after convergence to the truth, where all techniques agree.',
  [MAC, AUX],
  [('technique dispatch', MAC + ':MachineLayer.output'), ('products', AUX + ':lom_generate_data_fast')],
  ['layer.output(...)'])

p('C12', 'Max model reconstructions report the strongest active dimension',
  'In the max model, the predicted probability of a one is the largest reliability among the latent dimensions active for that entry, and the background (last) reliability where none is active, whatever the order of the reliabilities. '
  'This holds for the current state, the thresholded means, and averaged over recorded samples, and the mean-based technique returns the exact expectation of this quantity under independent entries; all results lie in [0,1].',
  ['inputs', 'configurations'],
  'Any factors, any reliability vectors with the background smallest (ties included), any traces.',
  'The single test thresholds one technique at .5 on data whose dimensions barely overlap.',
  [OUT, FUZ, MAC],
  [('max product', OUT + ':MAX_AND_product_2d'), ('expected max product', FUZ + ':MAX_AND_product_fuzzy'), ('dispatch', MAC + ':MachineLayer.output')],
  ["layer.output(...) of a 'MAX-AND' layer"])

p('C13', 'Max model updates target the exact full conditional',
  'Updating one factor entry of a max model flips it with probabilities whose ratio equals its posterior odds under the likelihood in which each observed entry is one with probability equal to the largest reliability among active dimensions (background if none), for reliabilities in any order and with the current reliabilities, including values set by the user. '
  'Missing entries contribute nothing.',
  ['inputs', 'configurations'],
  'Any factors, data in {-1,0,1}, reliabilities in (0,1) in any order with background smallest, either factor.',
  'The test starts at the truth with equal reliabilities; rank and column index then coincide.',
  [MM, MW],
  [('score with explaining away', MM + ':posterior_score_MAX_AND_2D'), ('log-ratio table', MM + ':compute_lbda_ratios'), ('rank order', MW + ':get_sampling_fct')],
  ['factor values after one sampling sweep under a controlled random source'])

p('C14', 'Max model reliabilities are greedy smoothed hit rates',
  'After an update, reliabilities are assigned greedily: repeatedly the unassigned dimension with the highest Laplace-smoothed fraction (ones+1)/(ones+zeros+2) of ones among observed entries it covers that no previously assigned dimension covers gets that fraction (ties to the lowest index). '
  'The background gets the smoothed fraction of ones among observed uncovered entries, capped at the smallest reliability; all values lie strictly between 0 and 1.',
  ['inputs'],
  'Any factors (including empty or identical dimensions), data in {-1,0,1}.',
  'The single max-model test only thresholds a reconstruction.',
  [MM],
  [('greedy assignment', MM + ':lbda_MAX_AND')],
  ['layer.lbda() after inference with fixed factors'])

p('C15', 'Clean-up removes exactly the redundant latent dimensions',
  'Cleaning a layer leaves no latent dimension that is entirely inactive in some factor and no two dimensions with identical columns in some factor; every dimension that violates neither rule (against itself or an earlier kept dimension) survives, with its columns in all factors, its fixed-entry marks and (max model) its reliability moved along consistently and in the original order. '
  'Resetting instead of removing keeps the number of dimensions and deactivates the same ones; the return value says whether anything was removed or deactivated. '
  'Inference with automatic clean-up ends in such a clean, consistent state whenever it reports convergence after burn-in.',
  ['inputs', 'histories'],
  'Any factor contents (adjacent inactive dimensions, duplicates, all redundant), 2 or 3 factors, logical and max models, direct calls and automatic clean-up.',
  'No test enables clean-up.',
  [AUX, MAC],
  [('clean-up', AUX + ':clean_up_codes'), ('removal', AUX + ':remove_dimension'), ('reset', AUX + ':reset_dimension'), ('automatic clean-up', MAC + ':Machine.burn_in')],
  ['layer.size', 'factor values', 'fixed_entries', 'lbda'])

p('C16', 'Synthetic data and noise generators do what they announce',
  'Noise functions return a copy of the same shape and type in which each observed entry is either unchanged or inverted, missing entries stay missing, nothing is inverted at rate 0 and everything at rate 1, the inversion frequency matches the given rate(s) per class, entries are inverted independently, and equal seeds give equal results. '
  'Random matrices have the requested density, random tensors are the Boolean product of the returned factors (before noise) with factors of the density that yields the requested expected tensor density, and random Boolean products come with factors in which no column is contained in another.',
  ['inputs', 'configurations'],
  'All shapes, rates, class-dependent rates, seeds, densities, latent sizes.',
  'Tests only use these functions to set up data.',
  [AUX, EX],
  [('noise', AUX + ':add_bernoulli_noise*'), ('random tensor', EX + ':generate_random_tensor'), ('random product', AUX + ':generate_orm_product'), ('random matrix', AUX + ':random_machine_matrix')],
  ['return values'])

p('C17', 'Train/test splits hide exactly the held-out observed entries',
  'Each splitting function returns training data equal to the (binary coded) input except at held-out entries, which are set to missing; held-out entries were all observed, the returned mask marks exactly these, and the input is not modified. '
  'Balanced splits hold out equally many ones and minus-ones, namely half the requested share each; unbalanced splits hold out the requested share of all entries in expectation, each observed entry equally likely.',
  ['inputs', 'configurations'],
  'All shapes (2D/3D), missing patterns, split fractions, balanced or not.',
  'The only test that calls a split fails for an unrelated reason and asserts nothing about it.',
  [EX, AUX],
  [('split', EX + ':split_train_test'), ('old split', EX + ':split_tensor_train_test_old'), ('max-machine split', AUX + ':split_test_train')],
  ['return values'])

p('C18', 'Expected densities are exact and inverted by the factor density',
  'For each of the 36 models, any number of latent dimensions and of factors, the expected density equals the exact probability that an entry of the product is one when all factor entries are independently one with the given density. '
  'The factor density computed for a target lies in [0,1] and reproduces that target within tolerance for the monotone model families (AND/OR/NAND/NOR only), and for others whenever it does not report that no solution exists.',
  ['inputs', 'configurations'],
  'All 36 models, latent sizes 1..n, 2..4 factors, densities in [0,1], reachable targets.',
  'The density test prints instead of failing on a mismatch and covers one (L,K,f).',
  [AUX],
  [('class and inversion table', AUX + ':get_lom_class'), ('closed forms', AUX + ':expected_density'), ('root finding', AUX + ':factor_density')],
  ['expected_density', 'factor_density'])

p('C19', 'The q-threshold model is sampled, scored and reconstructed consistently',
  'In the q-threshold model an entry is predicted one exactly when at least q(column) latent dimensions are active in both factors; reconstructions report this as a probability (0 or 1). '
  'Lambda is the smoothed fraction of correct predictions as for other models, each factor entry is updated with flip probability ratio equal to its posterior odds including lambda and prior, and each column threshold is drawn from its conditional under a Poisson prior restricted to 1..5.',
  ['inputs', 'configurations'],
  'Any factors, thresholds 1..5, data in {-1,0,1}, lambdas, priors, Poisson rates.',
  'No test uses this model.',
  [MU, MW, LU, OUT, MAC],
  [('threshold product', OUT + ':qL_AND_product'), ('factor samplers', MU + ':sample_qL_factors_*'), ('threshold sampler', MU + ':sample_qL_q'), ('lambda', LU + ':make_lbda_update_fct')],
  ['layer.output()', 'layer.q()', 'factor values after sweeps', 'layer.lbda()'])

p('C20', 'Models with unbounded latent size keep a consistent state',
  'While the Indian-buffet model samples, both factors always have the same number of latent dimensions and one row per data row/column, contain only -1 and 1, and every dimension that was just proposed or kept is used by at least one row when its row update ends; entries of the second factor are updated with the posterior odds of the OR-AND model. '
  'Inference runs to completion on any fully or partially observed matrix, its records embed the state of each sweep padded with inactive (-1) dimensions, and the reconstruction is the OR-AND product of these records.',
  ['inputs', 'histories'],
  'Random data and initial factors, latent sizes 1..n, concentration parameters, several inference calls.',
  'The one test of this model fails on the pinned tree.',
  [MU, MW, MAC],
  [('IBP sampler', MU + ':sample_2d_IBP'), ('wrapper', MW + ':get_sampling_fct'), ('padded traces', MAC + ':Trace.update_trace_IBP')],
  ['factor values and traces during and after inference'])

p('C21', 'Experiment drivers report what the fitted machine predicts',
  'The prediction experiment returns the fraction of held-out entries for which thresholding the reconstruction implied by the returned factor means at one half equals the true value, for any requested model (inverted ones included) and without altering the given data; the tensor reconstruction driver accepts 0/1 or -1/1 data and returns factor means, their exact mean reconstruction and their thresholded reconstruction, mutually consistent. '
  'The grid search evaluates every combination of model, size and repetition exactly once, all on one common train/test split.',
  ['inputs', 'configurations'],
  'Any small data set, mask, model name, latent size, annealed or not; any grid.',
  'No test calls these drivers.',
  [EX],
  [('prediction experiment', EX + ':LOM_predictive'), ('tensor reconstruction', EX + ':tensorm_reconstruct'), ('grid search', EX + ':LOM_hyperparms_parallel_gridsearch')],
  ['return values', 'caller arrays'])

p('C22', 'Auxiliary statistics and table helpers equal their definitions',
  'Binomial and beta-binomial log-odds tables hold log p(k+1)/p(k) of the respective distribution (minus infinity where p(k+1) is zero) with the documented length; the ROC score on held-out entries equals the probability that a held-out one is ranked above a held-out minus-one (ties half). '
  'Binary coding maps 0/1 data to -1/1 and leaves data containing -1 unchanged; table intersection keeps exactly the common rows and columns with their values, equally ordered in both; order-preserving unique keeps first occurrences; group centres are the truncated mean positions of each distinct value; the logistic function, its inverse and log-sum-exp equal their definitions.',
  ['inputs'],
  'All admissible parameters, label sets, score matrices and held-out patterns.',
  'No test calls these helpers.',
  [AUX],
  [('binomial/beta-binomial', AUX + ':compute_bp/compute_bbp'), ('AUC', AUX + ':get_roc_auc'), ('coding', AUX + ':check_binary_coding'), ('intersection', AUX + ':intersect_dataframes'), ('unique', AUX + ':unique_ordered'), ('centres', AUX + ':find_centers_of_ordered_list')],
  ['return values'])

p('C23', 'Each inference call uses the configuration in force when it is called',
  'Over any history of inference calls, interleaved with the user changing factor values, priors, beta priors, fixed entries, fixed flags, lambdas or data, or stacking further layers, each call starts from the current values and follows the current settings: updates use the current Bernoulli and beta priors, current data and current fixed marks, and nothing from an earlier call other than the current state influences it. '
  'In particular, a machine with a history and a freshly built machine with the same current state and settings behave identically under the same random source.',
  ['histories', 'configurations'],
  'Operation sequences over set-value, set-prior, fix/unfix, change-data, infer on logical and max models, compared with a freshly built machine.',
  'Every test makes a single inference call on a fresh machine.',
  [MAC, MW, LW, MM],
  [('sampler assignment', MW + ':get_sampling_fct'), ('parameter assignment', LW + ':get_update_fct'), ('inference setup', MAC + ':Machine.infer')],
  ['values, traces, reconstructions after each inference call'],
  [('sampling_fct', 'update function kept across calls', MAC)])

p('C24', 'Machines are assembled with consistent shapes and relations',
  'A layer added to data of any shape owns one factor per data axis with one row per index of that axis and one column per latent dimension, initialised at random with entries -1/1, ordered by axis; siblings, child, parents, size and arity agree with that, also when layers are stacked on factors of other layers. '
  'The machine lists every factor and every added matrix exactly once and every lambda once, data are stored as 8-bit integers with the given values, and a layer requested with neither data nor shape is rejected.',
  ['inputs', 'configurations'],
  'Any shapes with 2 or 3 axes, latent sizes, models, stacks of layers, dtypes of the supplied data, initial densities.',
  'Tests use fixed shapes and never inspect the structure.',
  [MAC],
  [('layer creation', MAC + ':Machine.add_layer'), ('matrix creation', MAC + ':MachineMatrix.__init__'), ('relations', MAC + ':MachineLayer.__init__')],
  ['layer.factors, siblings, child, parents, size, members, lbdas'])

out = '\n'.join(json.dumps(x) for x in P) + '\n'
open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w').write(out)
for x in P:
    assert len(x['title']) <= 80, (x['id'], len(x['title']))
print(len(P))
