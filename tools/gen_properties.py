"""writes properties.jsonl (the human-readable statements live here)"""
import json, os
P = []
Q = 'quantificationlib/'


def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=[Q + f for f in files], mechanism=[dict(name=n, where=Q + w) for n, w in mech]))
    if observe:
        d['anchors']['observe_at'] = observe
    P.append(d)


p('P01', 'Algebraic prevalence errors equal their definitions and behave as distances',
  'For any two prevalence vectors (row or column shaped), the mean absolute, mean squared, L1, L2, Hellinger, Bray-Curtis and probabilistic-symmetric errors equal their textbook formulas over all components, in any argument order that the formula allows. They are never negative, are zero exactly when the two vectors are equal, and do not depend on the order in which the two vectors are given.',
  ['inputs'], 'every pair of non-negative vectors with up to 4 components, 1-D or column shaped',
  'tests compare a few literal vectors; a wrong component, weight or sign can agree on those and differ elsewhere',
  ['metrics/multiclass.py'], [('algebraic error functions', 'metrics/multiclass.py'), ('shape normalisation', 'metrics/multiclass.py: check_prevalences')])
p('P02', 'Logarithmic divergences equal their definitions and are finite',
  'For any true and predicted prevalences, the Kullback-Leibler (multiclass and binary), Topsoe and Jensen-Shannon divergences equal their definitions up to the documented smoothing constant, with 0*log 0 counted as 0. They are finite on every valid pair of prevalences including components equal to 0 or 1, are (numerically) non-negative, vanish when both vectors are equal, and Topsoe is twice Jensen-Shannon, both symmetric.',
  ['inputs'], 'every pair of prevalence vectors with up to 3 components (binary: every pair in [0,1])',
  'boundary prevalences (0, 1) and the smoothing terms are reached only by chosen inputs; the identity must hold for all',
  ['metrics/multiclass.py', 'metrics/binary.py'], [('divergences', 'metrics/multiclass.py'), ('binary kld', 'metrics/binary.py')])
p('P03', 'Binary prevalence metrics equal their definitions on the whole unit square',
  'For every true and predicted positive prevalence in [0,1], the bias, absolute, squared, relative absolute and symmetric absolute percentage errors and the normalised absolute and squared scores equal their definitions. The normalised scores lie in [0,1], are 1 exactly for a perfect prediction and 0 for the worst one; the symmetric percentage error lies in [0,1] and is 0 when both prevalences are 0.',
  ['inputs'], 'all pairs (p_true, p_pred) in [0,1] x [0,1]',
  'edge cases at 0, 1/2 and 1 and the whole continuum cannot be sampled exhaustively',
  ['metrics/binary.py'], [('binary metrics', 'metrics/binary.py')])
p('P04', 'Earth mover metrics equal the L1 distance of cumulative distributions',
  'For any two ordinal distributions the earth mover distance is the sum of the absolute differences of their cumulative sums, and the pairwise version between two sets of distributions gives exactly that value for every pair of rows. The normalised score is 1 for a perfect prediction, 0 for the worst possible prediction of that true distribution, and always between 0 and 1.',
  ['inputs'], 'all distributions over up to 5 ordered classes; sets of up to 3 rows',
  'relations between different functions must hold for all distributions, not sampled ones',
  ['metrics/ordinal.py'], [('emd', 'metrics/ordinal.py: emd'), ('score', 'metrics/ordinal.py: emd_score'), ('pairwise', 'metrics/ordinal.py: emd_distances')])
p('P05', 'Classification metrics: Brier score and geometric mean of recalls',
  'The multiclass Brier score is the average over examples of the squared Euclidean distance between the two probability rows. The geometric mean is the n-th root of the product of the per-class recalls over every label that occurs in the true or predicted labels, where a zero recall (including a label absent from the true labels) is replaced by the given correction.',
  ['inputs'], 'up to 5 examples, 3 labels, every true/predicted labelling',
  'all combinations of absent/missed labels and non-contiguous labels matter',
  ['metrics/multiclass.py'], [('brier', 'metrics/multiclass.py: brier_multi'), ('gmean', 'metrics/multiclass.py: geometric_mean')])
p('P06', 'Classify-and-count and probabilistic counting return exact class frequencies',
  'Classify & count returns, for each class in sorted label order, the fraction of test examples whose predicted label is that class (for probability predictions, the class with the largest probability). Probabilistic classify & count returns the mean predicted probability of each class. Both have one value per training class, even when a class is never predicted.',
  ['inputs'], 'every prediction matrix/label vector up to 5 test examples and 4 classes, any label values',
  'counting over every possible prediction pattern and label naming cannot be enumerated by example tests',
  ['baselines/cc.py', 'base.py'], [('CC', 'baselines/cc.py'), ('PCC', 'baselines/cc.py')])
p('P07', 'Precomputed predictions and fitted estimators give the same quantifier',
  'Fitting/predicting with precomputed predictions gives the same result as letting the quantifier call its own estimators on the same data; an estimator that is already fitted is used as is, an unfitted one is fitted on the training data before use. Crisp quantifiers given probabilities use the most probable class label (first one on ties); given one positive-class score per example they use a threshold of 0.5 inclusive; given labels they use them unchanged.',
  ['inputs', 'configurations'], 'every prediction pattern up to 4 examples, 2-3 classes, any label values; all quantifier families',
  'equivalence of two routes must hold for all predictions; ties and thresholds are measure-zero inputs',
  ['base.py'], [('estimator handling', 'base.py: UsingClassifiers.fit/predict'), ('crisp conversion', 'base.py')])
p('P08', 'Repeated cross-validation predictions are matched with the right labels',
  'When the training predictions contain several rows per training example (k complete repetitions one after the other), each row is treated as an example with the label of its original, so every quantifier estimates its per-class training statistics over all k repetitions; repeating the same predictions k times does not change the estimated prevalences.',
  ['inputs'], 'every prediction matrix, 2-4 training examples in any label order, up to 3 repetitions, all quantifier families',
  'misalignment shows only with particular label orders and differing repetitions',
  ['base.py', 'multiclass/df.py', 'baselines/ac.py', 'multiclass/energy.py'], [('label tiling', 'base.py: UsingClassifiers.fit')])
p('P09', 'Binary adjusted counting inverts the classifier error rates',
  'For two classes, adjusted count estimates the positive prevalence as (observed rate - false positive rate)/(true positive rate - false positive rate), clipped to [0,1], and returns the complement for the negative class; the probabilistic version does the same with average probabilities. When the two rates differ by at most 0.001 the unadjusted estimate is returned. The rates are those measured on the training predictions.',
  ['inputs'], 'every prediction/label pattern up to 6 training and 4 test examples',
  'the correction formula, clipping and degenerate branch must hold on the whole input space',
  ['baselines/ac.py', 'multiclass/knn.py'], [('binary adjustment', 'baselines/ac.py: AC.predict, PAC.predict')])
p('P10', 'Multiclass adjusted counting solves the mixture equation',
  'For three or more classes, adjusted count (crisp or probabilistic) solves: observed class rates = sum over classes of prevalence times the training rates of that class; negative components are set to 0 and the rest rescaled to sum 1. When the system is singular it returns the minimiser, over valid prevalences, of the configured distance (Hellinger, L2, L1) between both sides, and an unknown distance is an error.',
  ['inputs', 'configurations'], 'every invertible or singular 3-class training pattern within bounds, every test pattern up to 4 examples',
  'singular and clipped cases are rare inputs; the identity must hold for every invertible system',
  ['baselines/ac.py', 'optimization.py'], [('multiclass adjustment', 'baselines/ac.py'), ('fallback', 'optimization.py')])
p('P11', 'Variance-corrected binary quantifier follows its closed form',
  'The de-biased binary quantifier returns p = train prevalence + (mean positive probability in test - train prevalence)/Vt, clipped to [0,1] with the complement for the negative class, where Vt is the mean squared deviation of the training positive probabilities from the training prevalence divided by the product of both training prevalences. A non-binary training set is rejected.',
  ['inputs'], 'every probability vector up to 4 training and 3 test examples, every labelling',
  'closed form must hold on a continuum',
  ['binary/debias.py'], [('closed form', 'binary/debias.py')])
p('P12', 'Expectation-maximisation re-estimates priors exactly as specified',
  'Starting from the training prevalences, each iteration reweights every test posterior by current/training prevalence, renormalises each row and averages; it runs at least 10 iterations, stops when the mean absolute change is at most epsilon, and never exceeds the maximum. The result is always a valid distribution; if the average of the posteriors already equals the training prevalences it is returned unchanged, and a class with zero current prevalence stays at zero.',
  ['inputs', 'schedules'], 'all posteriors for 2-3 classes and up to 3 test examples; iteration counts up to the bound',
  'fixed point, iteration limits and one-step update hold for all posteriors, not samples',
  ['multiclass/em.py'], [('EM loop', 'multiclass/em.py: EM.predict')])
p('P13', 'Binning puts every value in exactly one bin with unbounded cut points',
  'For each binning strategy the cut points are non-decreasing, number bins+1, and start/end at minus/plus infinity so that histograms over any data, including test values outside the training range, keep all the mass. Equal width splits the given (or observed) range evenly; equal count puts a cut point midway between the consecutive sorted values at each n/bins boundary; normal and binormal use the standard normal quantiles scaled by the class-balanced mean and deviation; unknown strategies are rejected.',
  ['inputs', 'configurations'], 'every vector up to 6 values, up to 4 bins, every labelling',
  'constant data, few examples and outliers are inputs tests do not contain',
  ['multiclass/df.py'], [('cut points', 'multiclass/df.py: compute_bincuts')])
p('P14', 'Score distribution matching uses class-conditional prediction histograms',
  'For score-based distribution matching, the training column of a class holds, per score descriptor and bin, the fraction of that class\'s training predictions falling in the bin (cumulated over bins for the cumulative variant), and the test vector is built identically from the test predictions with the same cut points; one descriptor (the first) is used for 2 classes and one per class otherwise. The returned prevalences are those that minimise the configured distance between the mixture of training columns and the test vector.',
  ['inputs', 'configurations'], 'every prediction matrix up to 6 training and 4 test examples, 2-3 classes, 2-4 bins, all distances and strategies',
  'representation must be right for all inputs; tests check only final numbers on one data set',
  ['multiclass/df.py', 'optimization.py', 'search.py'], [('DFy', 'multiclass/df.py: DFy.fit/predict'), ('HDy, MMy', 'multiclass/df.py')])
p('P15', 'Feature distribution matching uses per-feature class-conditional histograms',
  'For feature-based distribution matching, the training column of a class holds, feature by feature, the fraction of that class\'s training examples in each bin (cumulated within each feature for the cumulative variant) and the test vector is built identically with the training cut points. The returned prevalences minimise the configured distance between the mixture of the training columns and the test vector.',
  ['inputs', 'configurations'], 'every data set up to 5 training and 4 test examples, 1-2 features, 2-3 classes, 2-3 bins',
  'representation must be right for all inputs',
  ['multiclass/df.py', 'optimization.py', 'search.py'], [('DFX, HDX', 'multiclass/df.py')])
p('P16', 'Mixture solvers pose and solve the right problem over the probability simplex',
  'Given training columns and a test distribution, the L1, L2 and Hellinger solvers minimise exactly that distance between mixture and test distribution over non-negative prevalences summing to 1, also when a previously built problem is reused for another test distribution. The matrix handed to the quadratic solver is symmetric positive definite and equals the exact one whenever that is already positive definite.',
  ['inputs', 'histories'], 'every train/test distribution up to 3 classes and 4 bins',
  'optimality over a continuum, and reuse histories',
  ['optimization.py'], [('solvers', 'optimization.py')])
p('P17', 'Energy quantifiers minimise the energy distance between mixture and test set',
  'The energy-distance quantifiers (on scores, on score ranks, on features) return the prevalences in the simplex that minimise 2*E|mixture-test| - E|mixture-mixture\'| computed from the average pairwise distances between class samples and test sample with the configured distance; the rank-based one computes ranks (ties averaged) over training and test scores together, per column. Prevalences are given for every class in sorted label order.',
  ['inputs'], 'every sample up to 2 examples per class, 2-3 classes, 1-3 descriptors, 3 test examples',
  'a wrong index or weight only shows with unequal class sizes or more than two classes',
  ['multiclass/energy.py', 'optimization.py'], [('energy', 'multiclass/energy.py'), ('parameters', 'optimization.py: compute_ed_param_train/test, solve_ed')])
p('P18', 'One-dimensional prevalence search finds the minimiser of the distance',
  'The golden-section search returns a prevalence within the tolerance of the minimiser of any function that is unimodal on its interval, together with its loss, and the vector (1-p, p). The global search over [0,1] returns a prevalence whose loss is no worse than the best grid value (up to the tolerance), also when the loss has several local minima (wider than the grid step) or its minimum at an end of the interval; a constant loss is an error. Precomputed mixtures give the same result as computing them.',
  ['inputs'], 'all unimodal and two-well loss functions of the stated families; all tolerances of the bound',
  'position of minima ranges over a continuum',
  ['search.py'], [('search', 'search.py: global_search, golden_section_search')])
p('P19', 'Quantile matching weights examples by the candidate prevalence',
  'The quantile representation of a sorted sample is the average of the values falling in each of n equal-mass slices, an example straddling a boundary being split proportionally; for a candidate prevalence p each negative weighs (1-p)*n/negatives and each positive p*n/positives. The quantile quantifier returns the prevalence whose weighted training quantiles are closest to the test quantiles.',
  ['inputs'], 'every sorted sample up to 5 values, up to 4 quantiles, every labelling and prevalence',
  'splitting across boundaries depends on sizes and weights in ways tests do not enumerate',
  ['binary/quantiles.py', 'search.py'], [('quantiles', 'search.py: compute_quantiles'), ('QUANTy', 'binary/quantiles.py')])
p('P20', 'Sample ordinal distance matches the area between weighted score distributions',
  'For a candidate prevalence the ordinal distance equals the integral of the absolute difference between the cumulative distribution of the reweighted training scores (negatives weigh (1-p)/N-, positives p/N+) and that of the test scores. The quantifier returns (1-p, p) for the p that minimises it, whatever the order of the examples and the label values.',
  ['inputs'], 'every sample up to 3 training and 3 test scores, every labelling and prevalence',
  'ties, order and label values',
  ['binary/emd.py', 'search.py'], [('SORDy', 'binary/emd.py'), ('sord', 'search.py: compute_sord_weights, sord')])
p('P21', 'Friedman method matches exceedance rates of the training prevalence',
  'The Friedman quantifier describes a sample, per class, by the fraction of examples whose predicted probability for that class is at least the class\'s training prevalence; the training columns are these fractions within each class, the test vector the fractions in the test set. The returned prevalences minimise the configured distance between the mixture of columns and the test vector.',
  ['inputs', 'configurations'], 'every prediction matrix up to 5 training and 3 test examples, 2-3 classes, all distances',
  'threshold equality and class indexing',
  ['multiclass/friedman.py', 'optimization.py'], [('FriedmanME', 'multiclass/friedman.py')])
p('P22', 'Ordinal quantifiers match cumulative confusion rates and score histograms',
  'The ordinal adjusted count minimises the L1 distance between cumulative sums over ordered classes of the training rates mixture and of the observed test rates. The ordinal score quantifier maps each probability row to its expected class position (or its winning leaf position), histograms it over [1, number of classes] with bins per class gap, and minimises the configured distance (L2, Hellinger, L1, or earth mover on cumulated histograms); fewer than 3 classes or an unknown method is rejected.',
  ['inputs', 'configurations'], 'every prediction matrix up to 5 training and 3 test examples, 3-4 classes',
  'representation must be right for all inputs',
  ['ordinal/ac_ordinal.py', 'ordinal/pdf.py'], [('ACOrdinal', 'ordinal/ac_ordinal.py'), ('PDFOrdinaly', 'ordinal/pdf.py')])
p('P23', 'Frank & Hall classifiers derive class probabilities from ordered binary models',
  'The ordinal label encoding marks, for every class, the examples whose class is that one or lower, and binary model i is trained on it. The Frank & Hall class probabilities follow the documented formulas from the left-group probabilities, and the monotone variant first replaces a non-ascending sequence by the average of its running maximum and backward running minimum and then takes differences, giving a valid distribution (non-negative, sum 1) for every model output. Predicted labels are those of the largest probability.',
  ['inputs', 'configurations'], 'every left-probability sequence for 3-5 classes, any label values, up to 3 examples',
  'non-monotone model outputs occur only for particular data',
  ['estimators/frank_and_hall.py'], [('F&H', 'estimators/frank_and_hall.py'), ('label binarizer', 'estimators/frank_and_hall.py: FHLabelBinarizer')])
p('P24', 'Frank & Hall trees multiply model probabilities along the path',
  'The tree is built by recursively choosing, among the binary models of the current class range, the one whose estimated left-group prevalence on the training data is best under the performance measure. The probability of a class is the product along its path of left/right probabilities, so it is a valid distribution for every model output and tree shape; the quantification tree returns the average of those probabilities over the test set. The text of a tree has one line per node, indented by its depth, with the two groups of classes of its model, and the classes in order as its leaves.',
  ['inputs', 'configurations'], 'every model output, 3-4 classes, every tree shape reachable',
  'all tree shapes and outputs',
  ['estimators/frank_and_hall.py', 'ordinal/trees.py'], [('tree', 'estimators/frank_and_hall.py: FrankAndHallTreeClassifier, QTree'), ('quantification tree', 'ordinal/trees.py')])
p('P25', 'DDAG classifier combines exactly the right pairwise models',
  'The directed-acyclic-graph classifier starts with (first, last) class and at each node uses the pairwise model of the two remaining end classes, discarding the right class with the left probability and vice versa; the class probability is the sum over paths of the products, a valid distribution for every model output. In winner mode inner nodes route each example entirely to the more probable side (ties to the left) while the last decision keeps its probabilities; predicted labels are the most probable.',
  ['inputs', 'configurations'], 'every pairwise model output for 3-5 classes, both methods, any label values',
  'index arithmetic must be right for every class count; ties',
  ['estimators/ordinal_ddag.py'], [('DDAG', 'estimators/ordinal_ddag.py')])
p('P26', 'Ordinal decomposition differences corrected cumulative prevalences',
  'The ordinal decomposition fits quantifier i on the encoding "class i or lower" versus the rest (with the i-th model or prediction column as probability of the left group) and obtains cumulative prevalences; if not ascending they are replaced by the average of running maximum and backward running minimum. Class prevalences are the successive differences, always non-negative and summing to 1, in label order.',
  ['inputs', 'configurations'], 'every base quantifier output for 3-5 classes; prediction columns up to 3 examples',
  'non-monotone base outputs are rare',
  ['decomposition/ordinal.py'], [('decomposition', 'decomposition/ordinal.py')])
p('P27', 'One-vs-rest decomposition normalises the positive prevalence of each class',
  'The one-vs-rest quantifier fits the i-th base quantifier on class i (positive) versus the rest, using the i-th model or the i-th prediction column as positive-class probability, and returns the vector of positive prevalences divided by its sum (left as zeros if all are zero). Base quantifier, its settings and the routing of columns are the same in fit and predict.',
  ['inputs', 'configurations'], 'every base quantifier output for 3-4 classes; prediction columns up to 3 examples',
  'column routing and normalisation over a continuum',
  ['decomposition/multiclass.py'], [('decomposition', 'decomposition/multiclass.py')])
p('P28', 'Ensemble combination rules select and average the right members',
  'The ensemble returns the normalised mean or median of its members\' prevalences; prevalence similarity averages the given fraction of members whose prevalences are closest (mean absolute error) to the overall mean; distribution similarity averages the members whose own training-bag distribution is closest to the test distribution under the configured bag distance; the combined mode returns all of them and their mean. At least one member is always selected, and the median falls back to the mean when the median of every class is 0. Every result is a valid distribution.',
  ['inputs', 'configurations'], 'every member output for 2-4 members, 2-3 classes, PDF and CDF, selection fractions',
  'selection depends on ordering of continuous values',
  ['ensembles/eoq.py'], [('combination', 'ensembles/eoq.py: EoQ.predict'), ('bag distributions', 'ensembles/eoq.py: EoQ.fit')])
p('P29', 'Ensemble members train on their own bag and see their own predictions',
  'Member i of the quantifier ensemble is a separate copy of the base quantifier fitted on the examples, labels and predictions selected by bag i (from the i-th model when predictions come from an ensemble of classifiers, and from all repetitions when predictions are repeated), and predicts the test set with the matching predictions. The ensemble of classifiers holds one independently fitted copy per bag and returns its predictions in bag order.',
  ['inputs', 'configurations'], 'every bag index matrix with 2-3 bags of up to 4 examples; every prediction array',
  'aliasing between members and wrong index arithmetic only show when bags differ',
  ['ensembles/eoq.py', 'estimators/ensembles.py'], [('training', 'ensembles/eoq.py: EoQ.fit'), ('classifier ensemble', 'estimators/ensembles.py')])
p('P30', 'Prior-shift bags have exactly the prevalences they report',
  'For every random stream, each prior-shift bag has the requested size, contains only valid example indexes, and the reported prevalence of each class equals the fraction of bag examples with that label; prevalences are non-negative and sum to 1. Minimum prevalences are respected (to rounding of the bag size), infeasible or invalid settings are rejected, and equal seeds give equal bags.',
  ['inputs', 'schedules'], 'every outcome of the random draws for up to 2 bags of size up to 5, 2-3 classes, both methods',
  'random draws are sampled by tests, the guarantee is over all draws',
  ['bag_generator.py'], [('prior shift', 'bag_generator.py: PriorShift_BagGenerator')])
p('P31', 'Covariate-shift and mixed bags report true prevalences',
  'For every random stream, a covariate-shift bag draws its examples with probability proportional to their Gaussian-kernel similarity to a randomly chosen training example, has the requested size, valid indexes and reported prevalences equal to the label fractions. The mixed generator returns half (rounded down) prior-shift bags followed by covariate-shift bags, all consistent and, for the same integer seed, the bags those two generators make on their own; the default size is the training set size.',
  ['inputs', 'schedules'], 'every outcome of the random draws for up to 3 bags of size up to 3, 2-3 classes',
  'random draws are sampled by tests, the guarantee is over all draws',
  ['bag_generator.py'], [('covariate shift', 'bag_generator.py: CovariateShift_BagGenerator'), ('mixed', 'bag_generator.py: PriorAndCovariateShift_BagGenerator')])
p('P32', 'Prediction depends only on the last fit and the given test set',
  'Refitting a quantifier on new data gives the same predictions as fitting a fresh one on that data, and predicting a test set gives the same result whatever test sets were predicted before and however often (reused optimisation problems, cached mixtures and stored predictions do not leak). Two quantifier objects never influence each other.',
  ['histories'], 'every sequence fit-predict-predict and fit-predict-fit-predict over symbolic data within the per-family bounds, all quantifier families',
  'histories multiply the input space; tests fit once and predict once',
  ['multiclass/df.py', 'baselines/ac.py', 'optimization.py', 'search.py', 'multiclass/energy.py', 'binary/quantiles.py', 'multiclass/friedman.py', 'ordinal/pdf.py', 'ordinal/ac_ordinal.py', 'ensembles/eoq.py', 'multiclass/regression.py'],
  [('cached problem and mixtures', 'multiclass/df.py'), ('problem reuse', 'optimization.py')])
p('P33', 'Data handed in by the caller is never modified',
  'No quantifier, metric, bag generator or classifier wrapper modifies the arrays the caller passes in (examples, labels, training or test predictions, prevalence vectors, bag indexes), whatever the input.',
  ['inputs'], 'every input within the per-family bounds, all public entry points',
  'in-place operations on aliases show only for particular dtypes, shapes and branches',
  ['base.py', 'multiclass/df.py', 'search.py', 'metrics/multiclass.py', 'metrics/ordinal.py', 'estimators/frank_and_hall.py', 'ordinal/pdf.py', 'ordinal/ac_ordinal.py'], [('all entry points', 'base.py')])
p('P34', 'Regression quantifiers learn from bag histograms and their reported prevalences',
  'The regression quantifiers describe each generated bag by its per-descriptor histogram fractions and regress the prevalence of each class (the positive one for two classes) on it; a test set is described the same way with the same cut points, and the outputs are clipped to [0,1] and normalised to sum 1 in label order. All-zero outputs are an error.',
  ['inputs', 'configurations'], 'every data set up to 4 examples, 2-3 classes, bags up to 3, any regressor output',
  'representation and post-processing over a continuum',
  ['multiclass/regression.py'], [('REG', 'multiclass/regression.py')])
p('P35', 'Weighted nearest-neighbour methods follow their definition',
  'The weighted neighbour classifier gives each training example the weight 1 - (its class frequency), predicts the class with the largest total weight among the k nearest neighbours under the configured metric and probabilities proportional to those weights. The neighbour quantifier applies the adjusted count (two classes) or the L1 mixture match (more classes) to those predictions.',
  ['inputs'], 'every labelling of up to 5 examples, 2-3 classes and every neighbour assignment',
  'weights depend on class frequencies in all combinations',
  ['estimators/weighted_knn.py', 'multiclass/knn.py'], [('PWK', 'estimators/weighted_knn.py'), ('PWKQuantifier', 'multiclass/knn.py')])
p('P36', 'Cross-validation estimator predicts held-out folds on its training data',
  'Asked for the training set, the cross-validation estimator gives each example the prediction of the model that did not see it (per repetition); asked for other data it uses all models. Averaged probabilities are the mean over repetitions or models, non-averaged ones are stacked repetition by repetition, soft voting takes the class with the largest mean, hard voting the most voted class.',
  ['inputs', 'configurations'], 'every model output for 2-3 folds, 1-2 repetitions, up to 4 examples, 2-3 classes',
  'fold bookkeeping has to be right for all outputs',
  ['estimators/cross_validation.py'], [('CV_estimator', 'estimators/cross_validation.py')])
p('P37', 'Every quantifier returns a valid prevalence vector in sorted label order',
  'Every quantifier, whatever its family, returns one value per training class, in sorted label order, each between 0 and 1 and summing to 1 (within solver tolerance), for every training and test input and with verbose output on or off. (Adjusted counts whose corrected values are all non-positive and one-vs-rest results whose positive prevalences are all zero are outside.)',
  ['inputs', 'configurations'], 'every prediction matrix/data set within the per-family bounds, all quantifier families',
  'must hold for all inputs, including degenerate ones',
  ['baselines/cc.py', 'baselines/ac.py', 'multiclass/em.py', 'multiclass/df.py', 'multiclass/energy.py', 'multiclass/friedman.py', 'binary/debias.py', 'binary/quantiles.py', 'binary/emd.py', 'ordinal/pdf.py', 'decomposition/multiclass.py', 'decomposition/ordinal.py', 'ensembles/eoq.py'],
  [('all predict methods', 'base.py')])
p('P38', 'Estimates do not depend on example order or on the label values',
  'Permuting the training examples (with their labels and predictions) or the test examples does not change the prevalences a quantifier returns, and renaming the class labels in an order-preserving way does not either. For the non-ordinal quantifiers, renaming that reorders the classes only reorders the prevalences in the same way.',
  ['inputs', 'schedules'], 'every permutation of up to 4 examples and every order-preserving renaming over symbolic data within the per-family bounds',
  'a relation between two runs on all inputs',
  ['base.py', 'baselines/cc.py', 'baselines/ac.py', 'multiclass/df.py', 'multiclass/energy.py', 'multiclass/friedman.py', 'multiclass/em.py', 'binary/debias.py', 'binary/quantiles.py', 'binary/emd.py', 'ordinal/pdf.py', 'ordinal/ac_ordinal.py'],
  [('all fit/predict methods', 'base.py')])
p('P39', 'Prevalence line plot draws rows as segments proportional to prevalences',
  'The prevalence line plot draws row k at height k+1 as one segment per class, consecutive, starting at 0 and with length 100 times the prevalence, in class order. With ascending or descending order the rows are drawn sorted by the prevalence of the first class, without it in the given order; the prevalence matrix of the caller is left unchanged and one plot does not affect the next. The error box plots show exactly the given errors, one box per system.',
  ['inputs'], 'every prevalence matrix up to 3 rows and 5 classes, every order argument, every error table of 2-3 systems',
  'sorting over a continuum',
  ['plot/qlplot.py'], [('plot', 'plot/qlplot.py: plot_line_prevalences')])
p('P40', 'Estimates depend on the proportions of the data, not on its size',
  'Counting every test example k times, in any arrangement, does not change the prevalences a fitted quantifier returns (all families except the rank-based Cramer-von Mises one). Counting every training example k times, together with its label and prediction, does not either for the counting, adjusted, EM, debiasing, histogram matching (equal width bins), energy, Friedman, ordinal, decomposition and ensemble quantifiers.',
  ['inputs', 'configurations'], 'every test set of 2-3 examples repeated 2-100 times, every training set of 2-3 examples repeated 2-60 times, all quantifier families',
  'a relation between runs on samples of different sizes, for all inputs',
  ['base.py', 'baselines/cc.py', 'baselines/ac.py', 'multiclass/df.py', 'multiclass/energy.py', 'multiclass/friedman.py', 'multiclass/em.py', 'binary/debias.py', 'binary/quantiles.py', 'binary/emd.py', 'ordinal/pdf.py', 'ordinal/ac_ordinal.py', 'ensembles/eoq.py'],
  [('all fit/predict methods', 'base.py')])
p('P41', 'Data loading and scaling',
  'normalize standardises the training and the test set with the mean and the standard deviation of the training set alone (constant features are only centred), so the scaled training set does not depend on the test set nor one test example on another; the given arrays are left unchanged. load_data returns all columns but the last as features and the last one as integer labels, line by line.',
  ['inputs'], 'every training and test set of up to 4 examples and 3 features, every file of up to 4 lines',
  'leaks and mixed-up columns have to be excluded for all values',
  ['data_utils.py'], [('normalize', 'data_utils.py'), ('load_data', 'data_utils.py')])
p('P42', 'Constructor arguments follow the scikit-learn parameter contract',
  "Every quantifier and classifier reports each of its constructor arguments by get_params, and set_params replaces it. A clone (of a new or of a fitted object) is not fitted and, after fitting, gives the same prevalences or probabilities as the original. An object built and even used with other arguments gives, once they are replaced by set_params and it is fitted again, the same answers as one built with them. OrdinalQuantificationTree reports the tree built on its estimator.",
  ['inputs', 'configurations', 'histories'], 'every constructor argument of 33 classes; every training and test set (2-5 training, 1-3 test examples, 2-4 classes) for all quantifier families and classifiers',
  'a relation between objects with different histories, for all inputs; model selection and the ensembles rely on it',
  ['base.py', 'baselines/cc.py', 'baselines/ac.py', 'multiclass/df.py', 'multiclass/energy.py', 'multiclass/friedman.py', 'multiclass/em.py', 'multiclass/knn.py', 'multiclass/regression.py', 'binary/debias.py', 'binary/quantiles.py', 'binary/emd.py', 'ordinal/pdf.py', 'ordinal/trees.py', 'ensembles/eoq.py', 'estimators/weighted_knn.py', 'estimators/frank_and_hall.py', 'estimators/ordinal_ddag.py', 'estimators/cross_validation.py'],
  [('all constructors', 'base.py')])
p('P43', 'A test set composed of training examples gets its own composition back',
  'When the test set consists of the training examples (with their predictions), those of class c counted k_c times, the adjusted counting, histogram matching (any distance, bins and bin strategy, on scores or features), energy, Cramer-von Mises, Friedman, sample ordinal distance, ordinal and weighted-neighbour quantifiers return the class proportions of the test set, for every choice of the k_c (also 0 for some class) and every order of the examples, provided that the classes can be told apart: no other prevalence vector gives a better match. (Friedman with the Hellinger solver: two classes.)',
  ['inputs', 'configurations'], 'training sets of 5-8 examples, one of them symbolic, 2-4 classes; test sets with several counts and orders; every competing prevalence vector',
  'training and test data must be described in exactly the same way; holds for all competitors and examples',
  ['base.py', 'baselines/ac.py', 'multiclass/df.py', 'multiclass/energy.py', 'multiclass/friedman.py', 'multiclass/knn.py', 'binary/emd.py', 'ordinal/pdf.py', 'ordinal/ac_ordinal.py', 'optimization.py', 'search.py'],
  [('all fit/predict methods', 'base.py')])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for d in P:
            f.write(json.dumps(d) + '\n')
