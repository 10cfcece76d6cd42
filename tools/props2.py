RL = "Trusted: the rulinalg stand-in (no rulinalg source is available offline) and the engine."
L = "src/learning/"
T = "src/data/transforms/"
def Q(id, title, st, over, q, tests, files, mech, note, tech=S): P(id, title, st, over, q, tests, files, mech, tech, note)

Q("C07", "Min-max scaling maps fitted columns onto the range and back",
  "After fitting, every column's minimum and maximum map to the requested range ends and all other values affinely, for the fitted rows and for rows seen later, each column independently. The inverse transform undoes it. Non-finite data, constant columns and inputs with another number of columns are rejected with an error.",
  ["inputs"], "every finite matrix without constant columns, every target range, every later input",
  "The tests scale one or two small matrices.", [T + "minmax.rs"], [("fit, transform, inverse", T + "minmax.rs: MinMaxFitter, MinMaxScaler")],
  "All matrices up to 6 cells over 3-9 values x 5 ranges; patterned sizes to 70000 rows or 1025 columns. " + RL)
Q("C08", "Standardising gives the requested mean and deviation and inverts",
  "After fitting, the fitted columns have the requested mean and sample standard deviation, other rows follow the same affine map and the inverse transform undoes it. A single row, non-finite data and inputs with another number of columns are rejected with an error.",
  ["inputs"], "every finite matrix with at least two rows and no constant column, every target mean and deviation",
  "The tests standardise one or two small matrices.", [T + "standardize.rs"], [("fit, transform, inverse", T + "standardize.rs: StandardizerFitter, Standardizer")],
  "All matrices up to 6 cells over 3-9 values x 4 targets; patterned sizes to 70000 rows or 1025 columns. " + RL)
Q("C09", "Normalising gives every row unit norm and keeps its direction",
  "Each row is divided by its norm for the chosen norm, zero rows are left alone, rows do not influence each other and normalising again changes nothing. Non-finite data are rejected with an error.",
  ["inputs"], "every finite matrix and every norm", "The tests normalise a couple of small matrices.", [T + "normalize.rs"], [("row scaling", T + "normalize.rs: Normalizer::transform")],
  "All matrices up to 6 cells over 3-9 values x 6 norms; patterned sizes to 70000 rows or 1025 columns. " + RL)
Q("C10", "The Shuffler permutes whole rows uniformly",
  "For every outcome of the random draws the result is a permutation of the input's rows, each row intact. Over the draws every row order is equally likely, also when a Shuffler is reused.",
  ["inputs", "schedules"], "every matrix and every sequence of random outcomes", "The tests draw one fixed seed on one matrix.",
  [T + "shuffle.rs"], [("in-place Fisher-Yates over rows", T + "shuffle.rs: Shuffler::transform")],
  "Exhaustive with exact probabilities to 5 (thorough 7) rows; sizes to 70000 rows with at most one deviating draw. " + RL, S + " over all random outcomes")
Q("C11", "K-fold validation tests each sample once on a model not trained on it",
  "For every shuffle the tested folds partition the samples, each fold's training data are exactly the other samples, inputs stay paired with their targets and fold sizes differ by at most one. Scores are returned in fold order and a model error is passed on and ends the run.",
  ["inputs", "schedules"], "every sample count, fold count, shuffle and failing model call", "The tests check the fold splitting of two or three sizes.",
  ["src/analysis/cross_validation.rs"], [("shuffled indices cut into folds", "src/analysis/cross_validation.rs: k_fold_validate, Folds, ShuffledIndices")],
  "All shuffles with exact probabilities to n=6 (thorough 8), every k; default shuffles for every n<=40 (80) and to 70000. " + RL, S + " over all random outcomes")
Q("C12", "The confusion matrix counts every truth-prediction pair",
  "Each entry of the confusion matrix is the number of samples with that true and that predicted label, rows and columns follow the given label list or the sorted distinct labels, and labels outside a given list are not counted. Slices of unequal length are rejected.",
  ["inputs"], "all prediction and target slices, label types and label lists", "The tests use three fixed examples.",
  ["src/analysis/confusion_matrix.rs"], [("label index and counting", "src/analysis/confusion_matrix.rs: confusion_matrix")],
  "All slices to length 4 (5) over 3 labels x all label lists; patterned lengths to 300. " + RL)
Q("C13", "Scores equal their definitions",
  "Accuracy, row accuracy, precision, recall, f1 and the negative mean squared error equal their definitions for all outputs and targets for which the definition is not 0/0. Labels other than 0 and 1 are rejected by the binary scores.",
  ["inputs"], "all output and target slices and matrices", "The tests use a few examples per score.",
  ["src/analysis/score.rs"], [("score functions", "src/analysis/score.rs")],
  "All slices to length 6 (8) over {0,1}; matrices to 3x2; patterned lengths to 300. 0/0 is left open. " + RL)
Q("C14", "Nearest neighbour search is exact for all three searchers",
  "The kd-tree, the ball-tree and brute-force search each return min(k, n) distinct rows, ordered by their true Euclidean distances, and no row left out is nearer than one returned, whatever the leaf size, repetitions in the data, or k. Building always ends; searching before building, for k = 0 or with a point of another dimension is an error.",
  ["inputs", "histories"], "every data set, leaf size, query, k and rebuild history", "The tests search two small data sets with one leaf size.",
  [L + "knn/binary_tree.rs", L + "knn/brute_force.rs", L + "knn/mod.rs"], [("midpoint splits", L + "knn/binary_tree.rs: select_split, split"), ("pruning by box or ball distance", L + "knn/binary_tree.rs: search, dist"), ("k best so far", L + "knn/mod.rs: KNearest")],
  "All point sequences to 6 (7) points on a line and 4 (5) on a plane x 11 searchers x every k; patterned sets to 130 (400) points. " + RL)
Q("C15", "KNN predicts a most frequent label among the k nearest",
  "Each input is given a label that is most frequent in some choice of its k nearest training rows, for every searcher. Untrained use, fewer rows than k, k = 0, unequal rows and labels and inputs of another dimension are errors, and a rejected train leaves no half-trained model.",
  ["inputs"], "every training set, labelling, k, searcher and query", "The tests classify a handful of points of two data sets.",
  [L + "knn/mod.rs"], [("majority vote over the search result", L + "knn/mod.rs: KNNClassifier::predict, freq")],
  "All point sequences to 4 (5) points x labellings x k x 4 searchers; patterned sets to 60 points. " + RL)
Q("C26", "Cost functions and their gradients agree with their definitions",
  "Mean squared error and cross entropy equal their definitions and their gradients are the derivative with respect to the outputs, per sample, for matrices and vectors of every shape.",
  ["inputs"], "every output and target of equal shape inside the domain", "No test evaluates a gradient against its cost.",
  [L + "toolkit/cost_fn.rs"], [("CostFunc impls", L + "toolkit/cost_fn.rs")],
  "All matrices up to 4 cells over 5 values; patterned sizes to 60x5. cost_grad is per sample (times the row count), as the callers use it. " + RL)
Q("C27", "Regularisation costs and gradients agree with their definitions",
  "For each kind of regularisation the cost equals its definition and the gradient is the derivative of the cost (a subgradient where a weight is zero), and only the given slice counts.",
  ["inputs"], "every weight matrix or slice and every strength", "The tests evaluate one matrix per kind.",
  [L + "toolkit/regularization.rs"], [("reg_cost / reg_grad", L + "toolkit/regularization.rs: Regularization")],
  "All matrices to 3x2 over 5 values, every sub-slice of one 4x3, patterned sizes to 60x5. One known finding (L2 cost not squared). " + RL)
Q("C28", "Kernels equal their formulas and combine pointwise",
  "Every kernel equals its documented formula and is symmetric, positive semidefinite kernels have positive semidefinite Gram matrices, and sums and products of kernels are the pointwise sums and products.",
  ["inputs"], "all kernels, parameters and pairs of equally long vectors", "The tests evaluate one pair per kernel.",
  [L + "toolkit/kernel.rs"], [("Kernel impls and arithmetic", L + "toolkit/kernel.rs")],
  "22 kernel instances x all vector pairs to length 3 over 5 values; Gram matrices of all 3 (4)-point sets of a grid; lengths to 70. " + RL)
Q("C16", "K-means runs Lloyd's algorithm from a valid start for every initialisation",
  "Every initialisation gives k start centroids of its documented kind for all random draws. Each iteration assigns rows to a nearest centroid and moves each centroid to the mean of its rows, keeping it when it has none, so the cost never rises and centroids stay finite. Prediction returns a nearest centroid; impossible k, bad initialisers and untrained use are errors.",
  ["inputs", "schedules"], "every data set, k, initialiser and random outcome", "The tests run one or two data sets with unseeded draws and check success only.",
  [L + "k_means.rs"], [("init, update, distances", L + "k_means.rs: KMeansClassifier, Forgy, RandomPartition, KPlusPlus")],
  "All point sequences to 4 (5) points x all start centroids; all random outcomes of the initialisers with exact probabilities (Forgy cut after k+3 draws, k-means++ on a 64-step grid); sizes to 60 (200). " + RL, S + " over all random outcomes")
Q("C17", "DBSCAN finds exactly the density-connected clusters",
  "Two inner points are in one cluster exactly when a chain of inner points with steps of at most eps joins them, every point within eps of an inner point is in a cluster of such a point and all others are noise. Prediction gives the cluster of the nearest training row within eps. Both always refer to the last training; use without training or without predictive mode is an error.",
  ["inputs", "histories"], "every data set and order, eps, min_points and history of trainings and predictions", "The tests cluster two small data sets.",
  [L + "dbscan.rs"], [("cluster expansion", L + "dbscan.rs: expand_cluster, region_query"), ("nearest-row prediction", L + "dbscan.rs: predict")],
  "All point sequences to 6 (7) points on a line x min_points x eps, 5-point orders in the plane, all histories to 5 operations, sizes to 80 (250). " + RL)
Q("C18", "Gaussian naive Bayes learns class means, variances and priors",
  "Priors, per-class means and sample variances equal their definitions for each class with rows; classes without rows are never predicted; joint log probabilities equal the definition and the prediction marks a class of maximal probability. Rejected trainings and untrained use are errors and leave a trained model unchanged.",
  ["inputs", "histories"], "every training set and labelling, also with empty classes, and every failed retraining", "The test predicts two rows of one data set.",
  [L + "naive_bayes.rs"], [("parameter estimation", L + "naive_bayes.rs: NaiveBayes::train, update_params, Gaussian"), ("prediction", L + "naive_bayes.rs: predict")],
  "All values to 6 (7) rows x labellings with up to 3 classes; sizes to 80 rows. " + RL)
Q("C19", "Bernoulli and multinomial naive Bayes use smoothed class frequencies",
  "Smoothed feature log probabilities, priors and joint log probabilities equal their definitions for each class with rows, classes without rows are never predicted and the prediction marks a class of maximal probability. Rejected trainings are errors and leave a trained model unchanged.",
  ["inputs", "histories"], "every binary or count data set and labelling, also with empty classes, and every failed retraining", "The tests predict two rows of one data set each.",
  [L + "naive_bayes.rs"], [("parameter estimation", L + "naive_bayes.rs: Bernoulli, Multinomial"), ("prediction", L + "naive_bayes.rs: predict")],
  "All binary data to 4x2 (5x2), 3x3 and all count data to 4x2 x labellings with up to 3 classes; sizes to 60 rows. " + RL)
Q("C20", "A Gaussian mixture model performs EM steps and predicts normalised posteriors",
  "Training starts from distinct rows and the given or equal weights, each iteration is the EM step of the chosen covariance option, so the likelihood never falls without regularisation, weights sum to one and predictions are the posterior probabilities of the rows, summing to one. Degenerate data, wrong weights and untrained use are errors, and retraining forgets the old data.",
  ["inputs", "schedules", "histories"], "every data set, component count, covariance option, prior weights, random start and retraining", "The tests check construction and one training.",
  [L + "gmm.rs"], [("EM", L + "gmm.rs: membership_weights, update_params, compute_cov"), ("posteriors", L + "gmm.rs: predict")],
  "All point sequences to 4 (5) points x 1-3 components x 3 covariance options x all random starts, 0-3 iterations; sizes to 30 rows. " + RL, S + " over all random outcomes")
Q("C21", "Linear regression solves least squares and predicts by its coefficients",
  "Training gives the least-squares coefficients, intercept first, and predictions are intercept plus weighted features for each row. The cost is the mean squared error with its exact gradient; training by optimisation is the documented default gradient descent from zero. Singular data and untrained use are errors and a failed training keeps the old coefficients.",
  ["inputs", "histories"], "every data set and query, every point of the cost and every history of trainings", "The tests fit one or two small data sets.",
  [L + "lin_reg.rs"], [("normal equations", L + "lin_reg.rs: train, predict"), ("cost and gradient", L + "lin_reg.rs: compute_grad")],
  "All data to 5x1 (6x1) and 3x2 (4x2) over 3-6 values; exact derivative on all data to 3x2 x 9 points; all histories to 4 (5) operations; sizes to 120x8. " + RL)
Q("C22", "Logistic regression descends its cross entropy and predicts by the sigmoid",
  "The optimizer is given the intercept and the features, the targets, the start of 0.5 for each parameter, and a cost and gradient equal to the mean cross entropy and its derivative. What it returns becomes the parameters, intercept first, and predictions are the sigmoid of intercept plus weighted features for each row. Untrained use is an error and retraining starts afresh.",
  ["inputs"], "every data set, labelling, parameter point and optimizer", "No unit test trains this model.",
  [L + "logistic_reg.rs"], [("what the optimizer sees", L + "logistic_reg.rs: train"), ("cost and gradient", L + "logistic_reg.rs: compute_grad")],
  "All data to 3x2 x labellings x 27 parameter points through a recording optimizer; four gradient descent settings on all data to 4x1 and patterned sizes to 60x5. " + RL)
Q("C23", "Generalised linear models reach the maximum likelihood of their family",
  "Training is iteratively reweighted least squares for the given family, user-defined families included: a converged fit satisfies the score equations and is the maximum-likelihood fit. Predictions are the inverse link of intercept plus weighted features for each row; links, inverses and derivatives belong together. Singular data, unequal rows and targets and untrained use are errors and keep the old fit.",
  ["inputs", "histories"], "every data set, family and link and every history of trainings", "No unit test trains this model.",
  [L + "glm.rs"], [("reweighted least squares", L + "glm.rs: train"), ("families and links", L + "glm.rs: Criterion, LinkFunc and their impls")],
  "All data to 4x1, 5x1 and 3x2 (5x1, 4x2) over 3-6 values x 5 families; counts to 1e6; all histories to 3 (4) operations; sizes to 100x5. " + RL)
Q("C32", "Gradient descent optimizers follow their update rules over every row order",
  "Each optimizer starts at the given point and each step is its documented update (plain, Nesterov momentum, AdaGrad, RMSProp) of the previous parameters. Stochastic ones visit each row once per pass in a uniformly random order. They stop early only when the cost no longer changes, and only the documented parameter values are accepted.",
  ["inputs", "schedules"], "every differentiable model, start, data set, setting and random row order", "The tests minimise one parabola.",
  [L + "optim/grad_desc.rs"], [("update rules and passes", L + "optim/grad_desc.rs: the OptimAlgorithm impls")],
  "3 cost families x all small data sets and starts; all row orders of 3 rows x 2 passes (3) and 4 rows x 2 passes with exact probabilities; sizes to 40 rows, 30 passes. " + RL, S + " over all random outcomes")
Q("C33", "Conjugate gradient descent never ends above its start and finds minima",
  "For every smooth cost the result is an evaluated point with a cost no higher than at the start and than after fewer iterations; each accepted step satisfies the Wolfe-Powell conditions for the given constants; the number of evaluations stays within the bound per iteration. Strictly convex quadratics are minimised. The points it evaluates are those of the published procedure (Polack-Ribiere directions, cubic and quadratic interpolation).",
  ["inputs"], "every smooth cost function, start and setting", "The tests minimise one parabola.",
  [L + "optim/fmincg.rs"], [("line search and directions", L + "optim/fmincg.rs: optimize")],
  "Grids of quadratics in 1, 2, 3 and 5 dimensions x starts; four other functions; 0..12 (40) iterations one by one with 5 settings; every evaluation compared with the published procedure, 8 settings, up to 6 (14) iterations, until a decision is within rounding of a tie. " + RL)
Q("C24", "Neural networks compute their layers and the exact gradient of their cost",
  "A network of any layers that fit together outputs the composition of its layers with its current weights, bias first; weights are laid out per layer as documented. Its gradient is the sum over rows of the cost's derivative by each weight plus the regularisation. Layers or inputs that do not fit are errors, and initial weights are independent scaled normal draws.",
  ["inputs"], "every layer sequence, weight vector, criterion, regularisation and batch", "The tests check one layer and one network shape.",
  [L + "nnet/mod.rs", L + "nnet/net_layer.rs", T + "cost_fn.rs"], [("forward and back propagation", L + "nnet/mod.rs: forward_prop, compute_grad"), ("layers", L + "nnet/net_layer.rs: Linear and the activation layers")],
  "All networks to 4 layers of width <= 2 x 2 criteria x 4 regularisations x 1-3 rows x 3 weight vectors; all weight vectors over 4 values for 10 networks; perceptrons of 2-4 sizes 1-3. " + RL)
Q("C25", "Training a network continues from its weights along the exact gradient",
  "With each gradient descent method, training starts at the current weights, takes the method's steps along the gradient of the network's regularised cost for the rows in the visited order, and leaves exactly the resulting weights in use for prediction. Adding layers keeps the weights of the earlier ones; conjugate gradients never raise the cost.",
  ["inputs", "schedules", "histories"], "every architecture, optimizer, data set, random row order and history of trainings and added layers", "The tests train one network once.",
  [L + "nnet/mod.rs", L + "optim/grad_desc.rs", L + "optim/fmincg.rs"], [("training", L + "nnet/mod.rs: train, add, add_layers"), ("steps", L + "optim/grad_desc.rs: the OptimAlgorithm impls")],
  "8 optimizer settings x 7 networks x 2 criteria x 4 regularisations x 1-3 rows x 1-2 passes x all row orders; histories to 3 operations; to 40 rows, 20 passes. " + RL, S + " over all random outcomes")
Q("C29", "A support vector machine takes Pegasos steps and predicts by their sign",
  "After training, predictions are the sign of the kernel expansion whose coefficients result from the given number of Pegasos steps on uniformly chosen rows (with a leading one) for the given lambda. Untrained use and wrong numbers of targets or columns are errors, and a rejected training changes nothing.",
  ["inputs", "schedules", "histories"], "every data set, kernel, labelling, setting, random row sequence and history", "No unit test trains this model.",
  [L + "svm.rs"], [("training", L + "svm.rs: train"), ("decision", L + "svm.rs: predict, ker_mat")],
  "All kernel matrices to 2x2 over 4 values, 3x3 over 2 (3) x labellings x lambdas x all row sequences of 1-5 (7) steps with exact probabilities; histories to 4 (5). " + RL, S + " over all random outcomes")
Q("C30", "A Gaussian process predicts the exact posterior mean and covariance",
  "For each kernel, mean function and noise, predictions are the posterior mean given the training data, and the posterior covariance is the exact conditional covariance. Kernel matrices that are not positive definite, untrained use and other column counts are errors, and a failed training keeps the old model.",
  ["inputs", "histories"], "every data set, kernel, mean function, noise, query and history", "The test trains once and ignores the result.",
  [L + "gp.rs", T + "kernel.rs"], [("training", L + "gp.rs: train, ker_mat"), ("posterior", L + "gp.rs: predict, get_posterior")],
  "All sequences to 3 (4) points on a line and in the plane x 6 kernels x 3 means x 3-4 noises x targets; sizes to 30x3; histories to 4 (5). " + RL)
Q("C31", "Principal components are the scatter's eigenvectors by descending variance",
  "Components are orthonormal directions of largest scatter in descending order, of the centred data if asked for, as many as requested, also for more columns than rows. Predictions are the coordinates of the centred rows along them. Too many components, untrained use and other column counts are errors; a rejected training keeps the model and retraining forgets the old data.",
  ["inputs", "histories"], "every data set, number of components, centring and history", "The tests compare two data sets.",
  [L + "pca.rs"], [("training", L + "pca.rs: train"), ("projection", L + "pca.rs: predict, centering")],
  "All data to 4x1, 4x2 (5x2), 2x3 (3x3), 2x4 over 3-4 values x every number of components; sizes to 25x7; histories to 4 (5). " + RL)
Q("C34", "No model answers untrained or for data of the wrong shape",
  "Every model reports an error when it predicts without training. Training with a number of targets other than the number of rows, and predicting from rows with another number of columns than were trained on, never succeed; such a rejected training or query leaves the model as it was. Errors keep the kind they were made with and show their message.",
  ["inputs", "histories"], "every model and every combination of shapes", "The tests try one such case for one model.",
  [L + "lin_reg.rs", L + "svm.rs", L + "naive_bayes.rs", L + "dbscan.rs", L + "gmm.rs", L + "k_means.rs", L + "pca.rs", L + "gp.rs", L + "knn/mod.rs"], [("training and prediction", L + "*.rs: train, predict of each SupModel and UnSupModel"), ("errors", L + "error.rs")],
  "32 model set-ups x all shapes to 5 rows, 4 columns, 6 targets x 4 default random streams; larger shapes to 1000 rows, 84 columns. " + RL)
Q("C35", "Retraining forgets the past and predictions depend on the row alone",
  "After any history of accepted and rejected trainings a model answers as a fresh one trained on the last accepted data (neural networks excepted). Predicting changes nothing, and each row of a batch gets the answer it gets alone, in any order.",
  ["histories", "inputs"], "every model, history of trainings and sequence of query rows", "No test retrains a model.",
  [L + "k_means.rs", L + "dbscan.rs", L + "gmm.rs", L + "pca.rs", L + "naive_bayes.rs", L + "knn/mod.rs", L + "glm.rs", L + "gp.rs", L + "svm.rs", L + "lin_reg.rs"], [("state kept between calls", L + "*.rs: train, predict of each SupModel and UnSupModel")],
  "25 model set-ups x all histories of 1-3 (4) trainings on 5 data sets or wrong targets x 4 default random streams; all sequences of 3 query rows. " + RL)
Q("C36", "The data sets that come with the crate are the published ones",
  "Loading gives the published iris and tree data: every measurement, every species and volume, in the documented column order and coding, whatever was done with earlier loaded copies. Models trained on them give the published results.",
  ["histories"], "every cell and every history of loads, edits of copies and trainings", "The tests check only the sizes.",
  ["src/datasets/iris.rs", "src/datasets/trees.rs"], [("tables", "src/datasets/iris.rs, trees.rs: load"), ("container", "src/datasets/mod.rs: Dataset")],
  "All cells; all histories to 5 (6) operations; regression and naive Bayes results from the literature. " + RL)
