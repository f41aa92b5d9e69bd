TRUST = (" Bounded: holds for every value within the stated sizes, not beyond them; exact real arithmetic instead of floats; "
         "numpy, pandas and the third-party model behave as in the run (trusted).")

p("C01", "Partial dependence values are exact averages over the data",
  "For every table, model and batch size, the partial dependence value of a feature, of a pair of features or of all features but one, at given values, is the mean of the model's predictions over all rows with those features set to those values. The values do not depend on the batch size, on the order of the two features of a pair, on the row labels or on which values were asked for first.",
  ["inputs", "configurations"], "all tables (numeric or categorical cells, ties, any row labels), all prediction functions, all batch sizes",
  "The tests compare shapes and a few numbers on one fitted forest; they sample one table, one model and one batch size.",
  [PD, OPS], [("batched partial dependence for single / pairs / all-but-one", PD), ("partial dependence value fill-in", OPS)],
  "Solver-decided for every cell value, prediction function and batch size on tables up to 3x2 / 2x3." + TRUST)

p("C02", "Shared calculators and refits never change results",
  "Fitting a method with a calculator already used by other methods, or refitting the same object, gives exactly the results of a fresh computation. A calculator that was built for another model, table or prediction function is rejected with a ValueError and nothing is published.",
  ["histories", "inputs"], "all sequences of fits sharing one calculator or one object, all tables and prediction functions",
  "Tests fit each object once and never share a calculator across several methods or features orders.",
  [PD, PDPM, PDI, ADD], [("reuse of computed values", PD), ("validation of a supplied calculator", PDPM), ("same for the additivity meter", ADD), ("same for the importance method", PDI)],
  "Solver-decided for every history of 2-3 operations on small tables, with an arbitrary prediction function." + TRUST)

p("C03", "Pairwise H-statistic equals its definition",
  "For every table, model and set of features, the one-vs-one H-statistic of each unordered pair of requested features equals Friedman's definition on centred partial dependence values at the data rows (normalised or not, 0 when the pair shows no variation at all). Every pair appears exactly once, no value is negative, and rows are ordered and numbered strongest first.",
  ["inputs", "configurations"], "all tables, prediction functions, feature selections and orders, normalised and unnormalised, all batch sizes",
  "The tests only look at the shape and column names of the result for one model and table.",
  [HST, PDPM, PD, OPS], [("pairwise H-statistic", HST), ("centring", OPS), ("pair enumeration and sorting", PDPM)],
  "Solver-decided equality with the reference formula over all cell values and prediction functions in the bounds." + TRUST)

p("C04", "One-vs-all H-statistic equals its definition",
  "For every table, model and set of features, the one-vs-all H-statistic of each requested feature equals Friedman's definition built from the model's own predictions, the partial dependence on the feature and the partial dependence on all other features. Each requested feature appears exactly once, no value is negative, and rows are ordered and numbered strongest first.",
  ["inputs", "configurations"], "all tables, prediction functions, feature selections, normalised and unnormalised",
  "The tests only look at the shape and column names of the result for one model and table.",
  [HST, PDPM, PD, OPS], [("one-vs-all H-statistic", HST), ("all-but-one partial dependence", PD)],
  "Solver-decided equality with the reference formula over all cell values and prediction functions in the bounds." + TRUST)

p("C05", "Greenwell interaction equals its definition",
  "For every table, model and set of features, the Greenwell value of each unordered pair is the mean, over the two directions, of the sample standard deviation of the conditional importance of one feature across the distinct values of the other (standard deviation for numeric features, a quarter of the range for categorical ones; 0 where a feature has a single value). Every pair appears exactly once, no value is negative or undefined, and rows are ordered and numbered strongest first.",
  ["inputs", "configurations"], "all tables with numeric and categorical columns, ties and constant columns, all prediction functions and feature orders",
  "The tests look at shapes for one numeric data set; ties, constant or categorical columns and feature orders are not reached.",
  [GRE, PDPM, PD], [("conditional importance in both directions", GRE), ("pair partial dependence", PD)],
  "Solver-decided equality with the reference formula over all cell values and prediction functions in the bounds." + TRUST)

p("C06", "Partial dependence importance equals its definition",
  "For every table, model and set of features, partial dependence based importance of a feature is the population standard deviation (numeric) or a quarter of the range (categorical) of its partial dependence over its distinct values, each counted once. It is the same when asked for directly or through an interaction method; each requested feature appears exactly once, ordered and numbered strongest first.",
  ["inputs", "configurations"], "all tables, prediction functions, feature selections, direct and indirect use",
  "The tests check the shape on one model; repeated values and categorical columns are not reached.",
  [PDI, PDPM, PD], [("importance from partial dependence", PDI), ("importance computed during fit", PDPM)],
  "Solver-decided equality with the reference formula over all cell values and prediction functions in the bounds." + TRUST)

p("C07", "Additivity index equals its definition and is 1 for additive models",
  "For every table and model whose predictions vary, the additivity index is one minus the ratio of the squared error of the main-effects-only approximation (mean prediction plus centred partial dependence of every feature) to the squared deviation of the predictions from their mean. It never exceeds 1 and is exactly 1 for every additive model.",
  ["inputs"], "all tables, prediction functions and batch sizes",
  "The tests check one fitted model; that all additive models score 1 for all tables cannot be sampled.",
  [ADD, PD, OPS], [("additivity index", ADD), ("single partial dependence", PD)],
  "Solver-decided over all cell values and all (additive or arbitrary) prediction functions in the bounds." + TRUST)

p("C08", "Performance based interaction equals its definition",
  "For every model, metric, target and sequence of random permutations, the value of each unordered pair of requested features is the mean over repeats of the absolute non-additivity of the performance change: permuting both features with one common permutation, minus permuting each alone, plus the original performance. Every pair appears exactly once, ordered and numbered strongest first; the input table and targets are left unchanged.",
  ["inputs", "configurations"], "all permutations drawn, all metric values, all feature selections, numbers of repeats, problem types and target containers",
  "The tests check shapes with one seed; a wrong sign, a separate permutation for the second column or a mutated input only shows for particular draws.",
  [SEJ, MET], [("performance with permuted columns", SEJ), ("importance from permutation", PERM)],
  "Solver-decided for an uninterpreted metric and every permutation drawn, 2-3 rows, 1-2 repeats." + TRUST)

p("C09", "Permutation importance equals its definition",
  "For every model, metric, target and sequence of random permutations, the permutation importance of each requested feature is the mean over repeats of the performance lost when that feature alone is permuted (error increase for regression, score decrease for classification). All features of the table are scored when none are named; each appears exactly once, ordered and numbered strongest first, and the input is left unchanged.",
  ["inputs", "configurations"], "all permutations drawn, all metric values, all feature selections, numbers of repeats, problem types and target containers",
  "The tests check shapes with one seed and one metric.",
  [PERM, MET], [("permutation importance", PERM)],
  "Solver-decided for an uninterpreted metric and every permutation drawn, 2-3 rows, 1-2 repeats." + TRUST)

p("C10", "Sampling uses exactly n distinct rows with their own targets",
  "When a sample size n is given, the method works on exactly n distinct rows of the input drawn at random, keeps their labels, pairs every sampled row with its own target whatever the row labels are, and its results are those of a fit on just these rows. Without n all rows are used in order; the caller's table and targets are never changed.",
  ["inputs", "configurations"], "all samples the generator can return, all row label patterns (default, shuffled, shifted, repeated, strings), all methods that sample",
  "The tests use default row labels, where a misaligned target is invisible, and one seed.",
  [OPS, METH, PDPM, PDI, ADD, SEJ], [("sampling of rows", OPS), ("sampling of targets", SEJ), ("sampling of rows (PD based)", PDPM), ("sampling of rows (additivity)", ADD)],
  "Solver-decided over arbitrary predictions/metrics for every sample the generator can return on 3-4 rows." + TRUST)

p("C11", "Same random_state and inputs give the same results",
  "Two objects created with the same random_state and given the same sequence of fits produce identical sampled rows, interaction values and importances, whatever other random generators are used in between.",
  ["inputs", "histories"], "all draws of the seeded generator and of any unseeded generator, one or two consecutive fits, every method with a random_state",
  "A test runs one seed; a result that leaks unseeded randomness may coincide by chance and only some outputs are compared.",
  [METH, SEJ, PERM, PDPM, ADD], [("generator owned by the object", METH), ("generator handed to the importance method", SEJ)],
  "Solver-decided with seeded streams as fixed unknowns and unseeded ones as free unknowns." + TRUST)

p("C12", "Split score interactions equal their definition",
  "For every boosted ensemble, the split score of an ordered pair (parent feature, child feature) is the chosen metric (mean/sum of gain or cover, mean depth) aggregated over exactly the splits whose parent split uses the parent feature; with the definition filter on, only over those where the features differ and the child gain exceeds the parent gain. Each occurring ordered pair appears exactly once, ordered and numbered strongest first (smallest depth first for the depth metric), for both supported libraries and however the trees' nodes are numbered.",
  ["inputs", "configurations"], "all tree ensembles (shapes, split features, gains, covers, node numberings) of either library, all metrics, both filter settings, refits and shared handlers",
  "The tests check column names and a few properties of one fitted model of each library.",
  [SSI, HND], [("parent statistics and definition filter", SSI), ("unified tree table", HND)],
  "Solver-decided for arbitrary positive gains and covers on every tree shape in the bounds; split features and shapes are case-split." + TRUST)

p("C13", "Split score importance equals its definition",
  "For every boosted ensemble, the importance of each feature used in a split is the chosen metric over all its splits: mean/sum of gain or cover, mean depth, gain-weighted mean depth, number of times it is a root, or that number weighted by its share of root gain. Each used (and requested) feature appears exactly once, ordered and numbered most important first (smallest depth first for depth metrics).",
  ["inputs", "configurations"], "all tree ensembles of either library, all metrics, all requested feature subsets, direct calls and calls through the interaction method",
  "The tests check one fitted model and the default metric.",
  [SSF, HND, SSI], [("importance metrics", SSF), ("unified tree table", HND)],
  "Solver-decided for arbitrary positive gains and covers on every tree shape in the bounds." + TRUST)

p("C14", "Conditional minimal depth equals its definition",
  "For every forest, the value of an ordered pair of different features is the mean, over the trees that split on both, of the smallest distance from the splits on the first feature that are closest to the root down to a split on the second feature below them (number of splits in between; where none is below, the number of levels down to the rightmost leaf). The occurrence count is the number of trees where the second feature is found below; every ordered pair appears once, most frequent first, then smallest value first, whatever order the library numbers its nodes in.",
  ["inputs"], "all forests: number and shape of trees, feature of every split, node numbering",
  "The tests check the result's shape on one forest; they never compare values and never use trees grown best-first.",
  [CMD], [("depth computation and subtree search", CMD)],
  "Solver-decided: the feature of each split is a solver integer; forests of one to three trees with up to 4 splits." + TRUST)

p("C15", "Minimal depth importance equals its definition",
  "For every forest, the minimal depth importance of a feature is the mean, over the trees that split on it, of the depth of its split closest to the root. Each feature used in some split appears exactly once, smallest depth first.",
  ["inputs"], "all forests: number and shape of trees, feature of every split, node numbering",
  "The tests check the result's shape on one forest.",
  [MDI, CMD], [("mean minimal depth", MDI), ("depth computation", CMD)],
  "Solver-decided: the feature of each split is a solver integer; forests of one to three trees with up to 4 splits." + TRUST)

TAB = ["inputs", "configurations"]
DRAW = " Result tables hold arbitrary numbers after a real fit; drawing back ends record in the symbolic run and are the real ones in every replay."

p("C16", "Looking up a pair's interaction value works in either order",
  "For every fitted method, asking for the interaction value of two features gives the value published for that pair whichever feature is named first. For methods that report both directions it is the strongest direction (split score) or the mean of the known directions (conditional minimal depth), also when different pairs of names concatenate to the same text.",
  TAB, "all result values and row orders, all pairs, either order of the names, all methods",
  "The tests look a value up once, in the order in which it is stored.",
  [METH, CMD, SSI], [("lookup of a pair", METH), ("merging of both directions", CMD)],
  "Solver-decided for arbitrary values on 3-4 features, every row order." + TRUST)

p("C17", "Rank correlation of two methods compares the same pairs by strength",
  "For two fitted methods, the Pearson, Kendall and Spearman rank correlations equal their definitions on the strength ranks of the pairs both report (strongest interaction first for both methods, average ranks for ties). They do not depend on the row order of either table, on the order of the names in a pair or on how the features are called, and swapping the methods changes nothing.",
  TAB, "all pairs of methods, all values and row orders, ties, all feature names",
  "The tests compare two fitted methods on one data set; the agreement of pairs and the direction of ranks is only visible for particular orders and names.",
  [CMP, METH, CMD], [("joining and ranking of pair values", CMP), ("pair values of a method", METH)],
  "Solver-decided over arbitrary values of both tables (3 pairs, 4 in the thorough tier); ranks are decided by the solver." + TRUST)

p("C18", "Comparison plot places every pair at its two values",
  "The comparison plot of two fitted methods has exactly one point per pair that has a value in both, at the pair's value in the first and the second method, with axes named after the methods and reversed exactly for methods whose strong interactions are small. The requested number of these pairs, the strongest of the first method, is labelled at their points, and the correlation box shows the rank correlations of exactly these two methods.",
  TAB, "all pairs of methods, values, row orders and numbers of labels, comparators used before",
  "The tests only check that a figure is produced.",
  [CMP, METH], [("comparison plot", CMP), ("correlation box", CMP)],
  "Solver-decided over arbitrary positive values of both tables." + DRAW + TRUST)

p("C19", "Heatmap shows every interaction and importance in its own cell",
  "For every fitted method, the heatmap has one row and one column per feature of the result table in the same order; the cell of two different features shows their interaction value (both cells for undirected methods, each direction its own for directed ones) and the diagonal shows the importance of the feature. Values that do not exist stay blank, and darker always means stronger or more important.",
  TAB, "all values, row orders, missing pairs, unused features, self pairs, importance metrics, all methods",
  "The tests only check that plotting does not raise.",
  [VIS], [("matrix of interactions and importances", VIS), ("ordering of the matrix", VIS)],
  "Solver-decided over arbitrary non-negative values, 2-3 features." + DRAW + TRUST)

p("C20", "Interaction graph draws strength as width and importance as size",
  "For every fitted method, the graph has one named node per feature sized proportionally to its importance and one edge per pair of the result table. Interactions on the wrong side of the relevance threshold have no width, the strongest relevant interaction has the maximum width, and stronger relevant interactions are never thinner, where strong means small for depth based methods; the requested number of strongest relevant interactions is labelled with their values (no labels for depth based methods).",
  TAB, "all values, thresholds, widths, node sizes and numbers of labels, missing importances or interactions, all methods",
  "The tests only check that plotting does not raise.",
  [VIS], [("edge widths", VIS), ("relevance filter", VIS), ("edge labels", VIS)],
  "Solver-decided over arbitrary non-negative values, thresholds and widths, 2-3 features." + DRAW + TRUST)

p("C21", "Bar charts show the strongest entries in order with their values",
  "For every fitted method, the bar chart of pairs (and of one-vs-all values) shows exactly the requested number of first entries of the published table, strongest at the top, each labelled with its features and as long as its value. The conditional depth chart shows for each pair its value and, on the same position, a marker at the unconditional importance of the second feature joined to the bar by a line; its bars are coloured by how often the pair occurs, equal counts alike and more frequent pairs darker.",
  TAB, "all values, ties, numbers of bars and row orders, all methods",
  "The tests only check that plotting does not raise.",
  [VIS], [("bar chart of pairs", VIS), ("bar chart of features", VIS), ("conditional depth chart", VIS)],
  "Solver-decided over arbitrary values, up to 17 entries." + DRAW + TRUST)

p("C22", "Requests that cannot be served are refused and change nothing",
  "Plotting, looking up values or comparing before a fit, unknown or unsupported plot types, models of other packages, cover metrics for models that have no cover and stand-alone depth importance are each refused with the documented exception. A refused request leaves all earlier results, their order and their plots as they were, and every documented plot type of a fitted method works, with or without one-vs-all values.",
  ["inputs", "histories"], "all methods, plot types, metrics and models, before a fit, after it, and after a refused refit",
  "The tests try a few refusals on fresh objects and do not look at the state afterwards.",
  [EXC, VIS, METH, SSI, HND, CMP, MDI], [("plot type check", VIS), ("fitted check", METH), ("metric check", SSI), ("model check", HND)],
  "Requests are enumerated; values published before are arbitrary and solver-decided to be kept." + DRAW + TRUST)

p("C23", "Lollipop plot shows exactly the splits of the requested trees",
  "For every boosted ensemble, the lollipop plot shows for each tree within the requested fraction its root split at (tree number, gain), and every split below it down to the requested depth, and no others. Splits that form an interaction with their parent carry the label parent:child, roots whose gain reaches the threshold fraction of the largest shown root gain carry their feature, and nothing is labelled when labels are off.",
  TAB, "all ensembles of either library (stumps and single leaves included), all fractions, depths and thresholds",
  "The tests only check that plotting does not raise for one model.",
  [VIS, SSI, HND], [("lollipop plot", VIS), ("per-split statistics", SSI)],
  "Solver-decided over arbitrary gains, fractions and thresholds on small ensembles." + DRAW + TRUST)

p("C24", "Partial dependence plots show the right values on the right axes",
  "A profile of one or two features shows the partial dependence at every distinct value, on axes named after the features, with each value at its own position (combinations the method never needed may stay blank). The zenplot shows one panel per step: it starts with the strongest pair, continues with the strongest unused one (of the length plus one strongest) that contains the feature just shown or else the strongest left, never repeats a pair, and its panels share one colour scale that covers all shown values. The stand-alone visualizer draws the given model, data, features and settings under the given title.",
  TAB, "all tables, prediction functions and pairs in either order, all rankings of pairs and path lengths, both panel kinds",
  "The tests only check that plotting does not raise.",
  [PDPM, ZEN, PVIS, PD], [("profile plot", PDPM), ("zenplot", PDPM), ("path through pairs", ZEN), ("visualizer", PVIS)],
  "Solver-decided over arbitrary predictions; rankings and lengths are case-split." + DRAW + TRUST)

p("C25", "Summary plot consists of the individual plots; titles are respected",
  "The summary of a fitted method shows the same heatmap, graph and bar chart of pairs as the individual plots, plus the one-vs-all bar chart exactly when one-vs-all values exist, and settings given under the name of a part apply to that part. Every plot type shows the title it is given, or a generated one when none is given.",
  TAB, "all values and settings of the parts, all methods, with and without one-vs-all values, all plot types",
  "The tests only check that plotting does not raise.",
  [VIS, METH, HST], [("summary plot", VIS), ("plot dispatch", VIS)],
  "Solver-decided over arbitrary non-negative values, thresholds and widths, 2-3 features." + DRAW + TRUST)

p("C26", "Performance metrics equal their definitions",
  "For all targets and predictions, the mean squared error, its root and the accuracy equal their definitions, position by position whatever the containers and their labels; each applies to its own problem type only. Performance based interactions and importances measured with them (the root mean squared error when none is given) equal the definitions with these metrics.",
  ["inputs"], "all targets and predictions, containers and label types, all metrics, direct and through the methods",
  "The tests use one data set and do not check values.",
  [MET, SEJ, PERM], [("metrics", MET), ("default metric", SEJ), ("default metric of the importance", PERM)],
  "Solver-decided for up to 3 (5) arbitrary targets and predictions." + TRUST)

p("C27", "The explained output is the given function, else probability, else predict",
  "Every partial dependence based result explains the given prediction function (or that of the supplied calculator) if there is one, otherwise the second column of the class probabilities if the model has them, otherwise its predictions; performance based results always use the predictions. A later fit with another or no function explains the new choice only.",
  ["configurations", "histories"], "all kinds of models (with probabilities of 2 or 3 classes, predictions, both or none), with and without a function, one to three fits, all methods, arbitrary outputs",
  "The tests use models where the alternatives coincide in shape and never compare values.",
  [OPS, PDPM, PDI, ADD, SEJ, PERM], [("choice of the prediction function", OPS)],
  "Solver-decided with independent arbitrary functions for each output." + TRUST)

p("C28", "Plot settings reach the figure, documented defaults otherwise",
  "For every plot, each documented appearance setting (figure size, colours, colour maps, number format, line width and colour, colour bar size, node size, fonts, marker shapes, scale of the trees, kind of profile) is applied to exactly the element it names, and the documented default is used where none is given. In the summary the settings given for one part reach that part and no other.",
  ["inputs", "configurations"], "all methods and plot types, arbitrary sizes and widths, settings given or left out",
  "The tests draw nothing with settings and never look at the figure.",
  [VIS, CFG, PVIS], [("interaction plots", VIS), ("defaults", CFG), ("profiles and zenplot", PVIS)],
  "Sizes and widths solver-decided; colours, maps and shapes by case split." + DRAW + TRUST)

p("C29", "The model is only asked about tables that look like the data",
  "Every table a method hands to the model or the prediction function has the data's columns in their order and with their types (integers, booleans, single precision, categories with their levels, strings, dates, nullable types), at least one row, and in every column only values which occur in that column of the data. This holds for every method, batch size, feature selection and sample.",
  ["inputs", "configurations"], "all tables, column types, batch sizes, feature selections, samples and permutations, for all model-agnostic methods",
  "The tests use one all-numeric table and models that accept anything.",
  [PD, PERM, SEJ, OPS, PDPM, ADD], [("collected tables", PD), ("permuted tables", PERM), ("permuted pairs", SEJ), ("sampling", OPS)],
  "Values and patterns of equal cells solver-decided, types by case split; 2-3 rows, 2-3 columns." + TRUST)

p("C30", "Nothing given or published earlier is ever modified",
  "Fitting, calculating importance, looking up values, plotting and comparing leave the data, targets, feature lists, settings, unified trees and models they are given as they were. Plotting, looking up and comparing also leave all published results of the methods involved as they were, and tables obtained from an earlier fit keep their content when the same object is fitted again.",
  ["inputs", "histories"], "all values, methods, plot types, settings, comparisons and sequences of two operations",
  "The tests never look at an input or an earlier result again.",
  [METH, VIS, CMP, PD, SEJ, PERM, ADD, HND, SSI, CMD], [("plots", VIS), ("comparison", CMP), ("fits", METH), ("unified trees", HND)],
  "Values and orders solver-decided, operations by case split; 2-3 rows, 2-3 features, trees with up to 2 splits." + DRAW + TRUST)
