"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing it)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=None, note=""):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=hook)), note))

p("C01", "Copies of data sets are complete and independent",
  "apop_data_copy (and apop_data_memcpy into a set of the same shape) gives a set equal to the source in every component: vector, matrix, weights, text cells, row/column/vector/text names, title, and every further page. After that, modifying or freeing either set leaves the other exactly as it was. A memcpy into a destination that does not fit reports it in the destination's error element and touches nothing outside the destination.",
  ["inputs", "histories"], "every combination of present and absent components, sizes, names, NaNs, awkward text and page chains",
  "the tests copy a handful of sets and look at a few cells; a component dropped or shared for one combination of parts goes unseen",
  ["apop_data.m4.c", "apop_name.m4.c"], [("apop_data_copy", "apop_data.m4.c"), ("apop_data_memcpy", "apop_data.m4.c"), ("apop_name_copy", "apop_name.m4.c")],
  ["return value of apop_data_copy", "destination of apop_data_memcpy", "source after the destination is changed or freed"])
p("C02", "Stacking and splitting conserve every element in order",
  "apop_data_stack, apop_vector_stack and apop_matrix_stack give exactly the elements of the first input followed by those of the second, by row or by column, with names, weights and text kept beside the data they belong to, and change no input unless asked to work in place. Splitting a data set at any point gives two sets that hold each element exactly once, in order, and stacking them again restores the original. A mismatch of sizes is reported, not written out of bounds.",
  ["inputs", "configurations"], "all shapes, present/absent parts, split points (including the ends) and both directions",
  "the tests stack and split a few fixed sizes without names, text or weights",
  ["apop_data.m4.c", "apop_linear_algebra.m4.c", "apop_name.m4.c"], [("apop_data_stack", "apop_data.m4.c"), ("apop_data_split", "apop_data.m4.c"), ("apop_matrix_stack / apop_vector_stack", "apop_linear_algebra.m4.c")],
  ["results of stack and split", "inputs after the call"])
p("C03", "Row/column removal, pruning and transposing keep the right data",
  "apop_data_rm_rows (by list or by function), apop_data_rm_columns and apop_data_prune_columns keep exactly the rows or columns that were not dropped, in order, with every element, weight, text cell and name still beside its data. apop_data_transpose, in place or not, moves element (i,j) to (j,i) with its row and column names swapped, and transposing twice restores the data.",
  ["inputs", "histories"], "all shapes, all drop lists (none, some, all), sequences of several of these operations",
  "the tests prune and drop rows of one or two fixed sets",
  ["apop_data.m4.c"], [("apop_data_rm_rows", "apop_data.m4.c"), ("apop_data_rm_columns", "apop_data.m4.c"), ("apop_data_transpose", "apop_data.m4.c")],
  ["the data set after the operation"])
p("C04", "Element access by index, name, page and view names one cell",
  "apop_data_get, apop_data_ptr, apop_data_set and the row/column views agree on which cell an index, a row name, a column name or a page denotes, whatever sequence of edits produced the set; a name lookup finds a position bearing that name (ignoring case) or says there is none; and a set changes that one cell only. An index out of range or a name that is not there yields the documented error value (NaN, NULL, -1), changes nothing, and leaves the process running with the GSL error handler as it was.",
  ["inputs", "histories"], "all shapes and address forms, in and out of range, after any editing history",
  "the tests read back a few cells of small sets and never the error paths of most of these calls",
  ["apop_data.m4.c", "apop_name.m4.c", "apop.m4.h"], [("apop_data_get/ptr/set", "apop_data.m4.c"), ("apop_name_find", "apop_name.m4.c"), ("Apop_r, Apop_cv, ... view macros", "apop.m4.h")],
  ["return values", "whole data set before and after", "gsl error handler before and after"])
p("C05", "Text grids hold exactly the strings put into them",
  "After any history of allocation, growing, shrinking, setting and copying, every cell of a text grid holds the last string written to it, byte for byte (including strings that look like printf formats), a cell never written is the empty string, and a resize keeps the cells in the overlap. No such history reads or writes outside the grid, or frees a cell twice.",
  ["histories", "inputs"], "all sequences of apop_text_alloc, apop_text_set, apop_text_fill, apop_data_add_names, transposing, copying and freeing",
  "the tests allocate and fill a grid once; resizing histories and hostile strings are not tried",
  ["apop_data.m4.c", "apop_conversions.m4.c"], [("apop_text_alloc", "apop_data.m4.c"), ("apop_text_set", "apop_data.m4.c"), ("apop_text_fill_base", "apop_conversions.m4.c")],
  ["text grid after each step, against a model grid"])
p("C06", "Packing a data set to a vector and unpacking restores it",
  "apop_data_pack writes every vector, matrix and weight element of a set (and of its pages when asked, leaving out pages whose title is in <angle brackets> unless asked) exactly once, and apop_data_unpack of that vector into a set of the same shape restores every element. A size mismatch is reported without writing out of bounds.",
  ["inputs", "configurations"], "all combinations of parts, page chains, info pages and options",
  "the tests pack one fixed set",
  ["apop_conversions.m4.c"], [("apop_data_pack", "apop_conversions.m4.c"), ("apop_data_unpack", "apop_conversions.m4.c")],
  ["packed vector", "unpacked set"])
p("C07", "Resizing, filling and converting vectors and matrices keeps elements",
  "apop_vector_realloc and apop_matrix_realloc keep every element in the overlap of the old and new shapes at its position and refuse to resize views; apop_vector_copy, apop_matrix_copy, apop_vector_to_matrix, apop_array_to_vector and the fill functions reproduce every element in order in freshly owned storage, whatever the stride of the input view.",
  ["inputs", "histories"], "all old/new shapes, views with strides, repeated resizing",
  "the tests resize a few fixed shapes",
  ["apop_data.m4.c", "apop_conversions.m4.c"], [("apop_matrix_realloc", "apop_data.m4.c"), ("apop_vector_realloc", "apop_data.m4.c"), ("apop_vector_to_matrix", "apop_conversions.m4.c")],
  ["elements before and after"])
p("C08", "Reading a text file keeps every field of every row",
  "apop_text_to_data and apop_text_to_db read each line of a delimited or fixed-width file into one row: every field is kept, in its place, honouring delimiters, quotes, backslash escapes, comments, row names, column names, the NaN string, and a last line with or without a newline. Blank and comment lines make no rows, and no well- or ill-formed file makes the reader loop, crash or touch memory it should not.",
  ["inputs", "configurations"], "all files made of these elements, all option settings",
  "the tests read four small files",
  ["apop_conversions.m4.c"], [("parse_a_line, parse_a_fixed_line, get_field_names", "apop_conversions.m4.c"), ("apop_text_to_data / apop_text_to_db", "apop_conversions.m4.c")],
  ["data set or table read back, against a reference parser"])
p("C09", "What is printed can be read back",
  "apop_data_print, apop_matrix_print and apop_vector_print write every element, name and text cell of their input, in order, once, with the chosen delimiter, to the chosen file, pipe or stream, so that reading the file back gives the same numbers (to the six decimals printed), text and names; appending adds to and overwriting replaces an existing file. A destination that can not be opened is reported without a crash.",
  ["inputs", "configurations"], "all shapes and parts, delimiters, destinations",
  "the tests print one set and compare with a stored file",
  ["apop_output.m4.c"], [("apop_data_print", "apop_output.m4.c"), ("apop_prep_output", "apop_output.m4.c")],
  ["output file bytes"])
p("C10", "A data set written to the database reads back the same",
  "apop_data_print/apop_data_to_db followed by a query gives back every row and every vector, matrix, text and weight element in order, under the given column names, with NaN as NULL and text byte for byte (quotes and format characters included), and row names through db_name_column; appending adds rows and overwriting replaces the table. The database is not otherwise changed, and numbers survive to the precision with which the database returns text (15 significant digits).",
  ["inputs", "configurations"], "all shapes and parts, names, NaNs, awkward strings, few to many columns, append and overwrite",
  "the tests write one or two small tables",
  ["apop_db.m4.c", "apop_db_sqlite.c", "apop_output.m4.c"], [("apop_data_to_db", "apop_db.m4.c"), ("apop_query_to_mixed_data", "apop_db.m4.c")],
  ["tables read through an independent SQLite connection and through the query functions"])
p("C11", "Queries return exactly the rows SQLite returns, in the form asked for",
  "apop_query_to_data, _to_matrix, _to_vector, _to_float, _to_text and _to_mixed_data return every row and column SQLite gives for the query, in order, converted as documented (NULL and the NaN string to NaN or the NaN string, names from the columns, the row-name column pulled out). A query with no rows gives NULL (NaN for a float), and a malformed query is reported with the documented error value and leaves the connection usable.",
  ["inputs", "histories", "configurations"], "all tables, column types, queries, type lists, and sequences of good and bad queries",
  "the tests run a few queries on one data file",
  ["apop_db.m4.c", "apop_db_sqlite.c"], [("db_to_table, db_to_chars, multiquery_callback", "apop_db_sqlite.c"), ("apop_query_to_*", "apop_db.m4.c")],
  ["return values against direct use of the SQLite C API on the same file"])
p("C12", "SQL aggregates and functions give the documented statistics",
  "The SQL functions the library adds (variance, standard deviation, skew and kurtosis in their sample and population forms, and the math functions such as sqrt, pow, exp, log, sin, rand) give the value of the corresponding definition for the non-NULL values of each group, for any grouping, including empty and single-element groups.",
  ["inputs"], "all groups of values, NULLs included, all functions",
  "the tests compare a few of them on one table",
  ["apop_db_sqlite.c"], [("varStep/varFinalize, skewFinalize, kurtFinalize, ...", "apop_db_sqlite.c")],
  ["query results against a long double reference"])
p("C13", "Crosstabs and rank forms convert losslessly",
  "apop_db_to_crosstab puts the value of each (row, column) pair of the table in the cell so named and nothing else, apop_crosstab_to_db writes each cell back as one row, and the round trip keeps all the data; apop_data_rank_expand and apop_data_rank_compress keep the count of every rank and of the total.",
  ["inputs", "configurations"], "all tables of pairs, numeric and text labels, missing cells, long names",
  "the round-trip test has always failed here, and the rest see one table",
  ["apop_conversions.m4.c"], [("apop_db_to_crosstab", "apop_conversions.m4.c"), ("apop_crosstab_to_db", "apop_conversions.m4.c"), ("apop_data_rank_compress/expand", "apop_conversions.m4.c")],
  ["matrix and names", "table read back"])
p("C14", "Regex, paste and string helpers keep every match and cell",
  "apop_regex reports a match exactly when the POSIX regex matches, and its substring output has every parenthesised capture of every successive match, in order; apop_text_paste joins exactly the chosen cells with the given separators; apop_text_unique_elements and apop_vector_unique_elements list each distinct value exactly once, sorted. Each of them terminates on every input.",
  ["inputs", "configurations"], "all strings, patterns (including ones that match the empty string), grids, separators",
  "the tests match a few patterns",
  ["apop_asst.m4.c", "apop_regression.m4.c"], [("apop_regex", "apop_asst.m4.c"), ("apop_text_paste", "apop_asst.m4.c"), ("apop_*_unique_elements", "apop_regression.m4.c")],
  ["return values against references over regexec and plain C"])
p("C15", "Random streams are reproducible from the seed and distinct",
  "A generator from apop_rng_alloc, and everything drawn from it by the library, is a function of the seed alone: the same seed and calls give the same stream, different seeds give different streams, and generators are independent of each other. With one thread, a run is reproducible from apop_opts.rng_seed, and every thread's generator from apop_rng_get_thread is its own for the life of the program.",
  ["histories", "inputs", "schedules"], "all seeds, interleaved use of several generators, all thread numbers",
  "the tests fix one seed and look at distributions only",
  ["apop_bootstrap.m4.c", "apop_asst.m4.c"], [("apop_rng_alloc", "apop_bootstrap.m4.c"), ("apop_rng_get_thread_base", "apop_asst.m4.c")],
  ["streams drawn, side by side"])
p("C16", "Map and apply call the function once per item, in place",
  "The map/apply family (apop_map, apop_map_sum, apop_vector_map, apop_matrix_map, their _all, _sum and apply forms) call the given function exactly once for each item of the chosen part (row, column, element, vector, matrix, both), with the right index and parameter, put each result in the item's own place, and give the same result at any number of threads; the input is unchanged unless asked to work in place.",
  ["inputs", "schedules", "configurations"], "all shapes, parts, function forms, pages, inplace settings and thread counts",
  "the tests run single-threaded on a few shapes",
  ["apop_mapply.m4.c"], [("apop_map, mapply_core", "apop_mapply.m4.c")],
  ["call log of the mapped function", "result set and input set, against a sequential model"])
p("C17", "Matrix products, inverses, determinants and PCA are right",
  "apop_dot, apop_matrix_determinant, apop_matrix_inverse, apop_det_and_inv and apop_matrix_pca give the mathematically defined result to floating-point accuracy for every conformable combination of vectors, matrices and transpose flags, keep the names, leave their inputs unchanged, and report a non-conformable or non-square input without ending the process or changing the GSL error handler.",
  ["inputs", "configurations"], "all shapes and flag settings, well-conditioned and singular matrices",
  "the tests try a few products and one inverse",
  ["apop_linear_algebra.m4.c"], [("apop_dot", "apop_linear_algebra.m4.c"), ("apop_det_and_inv", "apop_linear_algebra.m4.c"), ("apop_matrix_pca", "apop_linear_algebra.m4.c")],
  ["results against long double references", "inputs and GSL handler after"])
p("C18", "The linear constraint returns the nearest feasible point and its distance",
  "apop_linear_constraint returns zero and leaves the vector alone when every constraint holds; otherwise it moves the vector to a point that satisfies every constraint (within the margin) and returns the distance moved. The outcome depends on this call's arguments only, not on earlier calls. The constraint of each stock distribution returns zero inside the domain of its parameters, and otherwise moves the parameters to the domain's border and returns the distance.",
  ["inputs", "histories"], "all feasible systems of constraints, all starting points, sequences of calls of different dimension",
  "the tests check two systems once each",
  ["apop_linear_constraint.m4.c", "model/apop_multinomial.c", "model/apop_normal.c"], [("apop_linear_constraint", "apop_linear_constraint.m4.c"), ("multinomial_constraint, like those of the other models", "model/apop_multinomial.c"), ("positive_sigma_constraint", "model/apop_normal.c")],
  ["vector and return value"])
p("C19", "Moments, covariances and sums match their definitions",
  "The sum, mean, variance, skew, kurtosis, covariance and correlation of vectors, matrices and data sets, plain or weighted, equal their documented definitions to floating-point accuracy, whatever the stride of the input, its scale, or its weights' scale as documented; uniform weights give the unweighted answer; and the input is left unchanged.",
  ["inputs", "configurations"], "all vectors, views, weights and scales",
  "the tests use a handful of vectors",
  ["apop_stats.m4.c"], [("apop_vector_mean/var/skew/kurtosis, apop_vector_cov, apop_data_covariance/correlation/summarize", "apop_stats.m4.c")],
  ["return values against long double two-pass references"])
p("C20", "Percentiles, normalisation, distances and entropy match their definitions",
  "apop_vector_percentiles, apop_vector_normalize, apop_matrix_normalize, apop_vector_distance, apop_vector_entropy, apop_vector_bounded, apop_vector_moving_average and the matrix positive-definiteness helpers give the documented value for every input, and leave the input as it was unless it is asked for in place.",
  ["inputs", "configurations"], "all vectors, options and metrics",
  "the tests use a handful of vectors",
  ["apop_stats.m4.c", "apop_hist.m4.c", "apop_linear_algebra.m4.c"], [("apop_vector_percentiles, _normalize, _distance, _entropy, _bounded, _moving_average", "apop_stats.m4.c, apop_hist.m4.c")],
  ["return values against references"])
p("C21", "Sorting is an ordered permutation of the rows",
  "apop_data_sort returns exactly the rows of the input, each with its vector, matrix, text, weight and name together, in the order its sort keys say (ascending or descending, numeric with NaN handled consistently, text ignoring case), in place or in a copy that leaves the input unchanged.",
  ["inputs", "configurations"], "all shapes, key lists over all the columns, ties, NaNs",
  "the tests sort two data sets",
  ["apop_sort.m4.c"], [("apop_data_sort", "apop_sort.m4.c")],
  ["multiset of whole rows before and after, and order of keys"])
p("C22", "Binning and compressing conserve the total weight",
  "apop_data_to_bins and apop_data_pmf_compress put every observation in exactly one bin or class, the one whose definition contains it, so that weights or counts sum to the input's, and the empirical distribution (PMF) estimated from data gives each observation its share of the weight in p, log likelihood, CDF and draws, and nothing to an observation it does not hold.",
  ["inputs", "configurations"], "all data sets, weights, bin specifications and close-top options",
  "the tests bin one or two data sets",
  ["apop_hist.m4.c", "apop_conversions.m4.c", "model/apop_pmf.c"], [("apop_data_to_bins", "apop_hist.m4.c"), ("apop_data_pmf_compress", "apop_hist.m4.c"), ("apop_pmf", "model/apop_pmf.c")],
  ["bin sets, weights, p/cdf/draw values"])
p("C23", "Factors and dummies encode every category faithfully",
  "apop_data_to_factors, apop_data_get_factor_names and apop_data_to_dummies give every row the code or dummy column of its own category, categories sorted and numbered without gaps, with a dictionary page that maps every code back to its text or number; existing factor pages are extended without renumbering; other columns are left as they were.",
  ["inputs", "configurations"], "all category columns (text, vector, matrix), append and keep-first options, existing dictionaries, long labels",
  "the tests make factors of one or two columns",
  ["apop_regression.m4.c"], [("apop_data_to_factors", "apop_regression.m4.c"), ("apop_data_to_dummies", "apop_regression.m4.c")],
  ["factor columns, dictionary pages, untouched columns"])
p("C24", "Linear regressions give the least-squares solution",
  "apop_ols, with weights or without, and apop_iv estimate the coefficients that solve their normal equations for every full-rank data set, with covariance, predicted values, residuals, R-squared and parameter tests equal to their definitions, and neither the caller's data nor other models are changed beyond the documented shuffle.",
  ["inputs", "configurations"], "all full-rank data sets, weights, shuffled or not, settings",
  "the tests run a few regressions",
  ["model/apop_ols.c", "apop_regression.m4.c"], [("apop_estimate_OLS", "model/apop_ols.c"), ("apop_estimate_coefficient_of_determination", "apop_regression.m4.c"), ("apop_estimate_parameter_tests", "apop_regression.m4.c")],
  ["parameters, covariance, predicted page, info, against a long double QR solution"])
p("C25", "Hypothesis tests report the textbook statistic and p-value",
  "apop_t_test, apop_paired_t_test, apop_f_test, apop_anova, apop_test_anova_independence, apop_test_kolmogorov, apop_histograms_test_goodness_of_fit, apop_test_fisher_exact and apop_test report the textbook statistic, degrees of freedom and p-values in [0,1], are symmetric or antisymmetric in their inputs as defined, and leave the inputs unchanged.",
  ["inputs", "configurations"], "all samples and tables within each test's domain",
  "the tests compare with a few stored figures",
  ["apop_tests.m4.c", "apop_fexact.c", "apop_hist.m4.c"], [("apop_t_test, apop_f_test, apop_anova, ...", "apop_tests.m4.c"), ("apop_test_fisher_exact", "apop_fexact.c"), ("apop_test_kolmogorov", "apop_hist.m4.c")],
  ["named elements of the result set"])
p("C26", "Probability, log likelihood and CDF agree with the distribution",
  "For each distribution in the library and all parameters in its domain, the log likelihood of a data set is the sum over its elements of the log density of that distribution, the probability is its exponential, the CDF is the integral or sum of the density and monotone from 0 to 1, and values outside the support have probability zero; evaluation changes neither data nor model.",
  ["inputs", "configurations"], "all parameters, data sets as vector, matrix or both, and points outside the support",
  "the tests evaluate each distribution at a point or two",
  ["model"], [("p / log_likelihood / cdf of each apop_model", "model/*.c"), ("apop_p, apop_log_likelihood, apop_cdf", "apop_model.m4.c")],
  ["values against independent density formulas and numerical integration"])
p("C27", "Draws follow the model's distribution",
  "Draws from each distribution have exactly dsize elements, lie in its support, and follow its distribution: the empirical distribution of many draws converges to the CDF implied by its density, for all parameters, including draws made through apop_model_draws, adaptive rejection sampling and the default rejection-free fallbacks; and they are a function of the generator's state alone.",
  ["inputs"], "all parameters of all distributions, many seeds",
  "the tests draw from one parameterisation of each and compare re-estimated parameters loosely",
  ["model", "apop_arms.c", "apop_model.m4.c"], [("draw of each apop_model", "model/*.c"), ("apop_arms_draw", "apop_arms.c"), ("apop_model_draws", "apop_asst.m4.c")],
  ["Kolmogorov distance and chi-squared of fixed-size samples against an independent CDF, guard cells around the draw"])
p("C28", "Scores are gradients of the log likelihood",
  "apop_score of each model with a closed-form or numeric score equals the gradient of that model's log likelihood in its parameters, for all data sets and interior parameters, and its evaluation changes neither data, parameters nor model.",
  ["inputs"], "all data sets and interior parameters of every model that has a score",
  "the tests compare at one point for some models",
  ["model", "apop_model.m4.c", "apop_mle.m4.c"], [("score functions registered in the vtable", "model/*.c"), ("apop_numerical_gradient", "apop_mle.m4.c")],
  ["score vector against central differences in long double of the independent log density"])
p("C29", "Estimation returns the maximum-likelihood parameters",
  "apop_estimate with a likelihood-based model returns parameters at which the log likelihood is no lower than at any nearby or true parameter (closed form or by search, with each documented search method that reports success), inside the model's constraints, with the reported log likelihood equal to the likelihood at the reported parameters; the input model and data are unchanged.",
  ["inputs", "configurations"], "all data sets, models, search methods and starting points within the domain",
  "the tests estimate one data set per model with a loose tolerance",
  ["apop_mle.m4.c", "apop_model.m4.c", "model"], [("apop_maximum_likelihood", "apop_mle.m4.c"), ("estimate of each apop_model", "model/*.c")],
  ["estimate, its info page and independent likelihood evaluations around it"])
p("C30", "Models, settings and copies do not interfere",
  "Copying, estimating, setting parameters or settings, and freeing a model affect only the model returned: the built-in models and every other copy keep their parameters, settings groups and results, for any history of these calls. Settings read back as set, removal and replacement affect only the group named, and no history leaves dangling pointers or double frees. Preparing a model gives its parameters and draws the sizes the model declares, where -1 stands for the width of the data, and keeps parameters already set.",
  ["histories", "configurations"], "all histories of copy, estimate, set_parameters, add/rm/get/set settings, free over several models",
  "the tests use each model once",
  ["apop_model.m4.c", "apop_settings.c", "apop_vtables.c", "apop.m4.h"], [("apop_model_copy/free/clear", "apop_model.m4.c"), ("apop_settings_*", "apop_settings.c"), ("apop_vtable_*", "apop_vtables.c")],
  ["settings and parameters of every live model after each step, against a model of the history", "sanitizer reports"])
p("C31", "Transformed and composed models follow their definition",
  "Fixing parameters, truncating to a region, changing coordinates, mixing and crossing models give exactly the distribution defined from the base models: likelihoods combine as products, divided by the mass of the region, or with the Jacobian; a mixture's CDF and draws are the weighted sum of its components' and its likelihood scores each row with the best weighted component, as documented; fixed parameters keep their values through estimation while the free ones are estimated; draws come from the composed distribution; input data and base models are not changed (but for the base of a fixed-parameter model, which is documented to be filled in).",
  ["inputs", "configurations"], "all base distributions, parameters, weights, regions, data",
  "the tests and examples try one composition each",
  ["transform", "apop_model.m4.c"], [("apop_model_fix_params", "transform/apop_fix_params.c"), ("apop_mixture", "transform/apop_mixture.c"), ("apop_cross", "transform/apop_cross.c"), ("apop_dconstrain", "transform/apop_dconstrain.c"), ("apop_coordinate_transform", "transform/apop_coordinate_transform.c")],
  ["likelihood values, parameters after estimation, draws"])
p("C32", "Updating, MCMC, bootstrap and jackknife give the right distribution",
  "apop_update gives the exact conjugate posterior where one is tabulated and otherwise draws whose distribution is the posterior, apop_model_metropolis returns exactly the number of draws asked for after burn-in, and apop_bootstrap_cov and apop_jackknife_cov give the covariance their definition implies, and apop_parameter_model the distribution of the parameters that follows from it; priors, likelihoods and data are not changed.",
  ["inputs", "configurations"], "all conjugate pairs and parameters, chain lengths, burn-ins, data sets",
  "the tests update a few pairs and bootstrap once",
  ["apop_update.m4.c", "apop_mcmc.m4.c", "apop_bootstrap.m4.c"], [("apop_update", "apop_update.m4.c"), ("apop_model_metropolis", "apop_mcmc.m4.c"), ("apop_bootstrap_cov, apop_jackknife_cov", "apop_bootstrap.m4.c")],
  ["posterior parameters, draw counts and moments"])
p("C33", "Parallel execution is free of data races",
  "Operations the library itself runs in parallel (mapping, likelihoods and draws over rows, bootstrap, and the per-thread generators) and concurrent calls from several threads on disjoint data have no data races, and give the same results as one thread.",
  ["schedules"], "all interleavings of the threads at any thread count",
  "the test suite sets one thread, so no parallel execution is ever tested",
  ["apop_mapply.m4.c", "apop_asst.m4.c", "apop_vtables.c", "model/apop_pmf.c", "apop_internal.h"], [("OMP_critical, OMP_for, omp locks", "apop_internal.h, apop_vtables.c"), ("threadlocal", "apop_internal.h"), ("apop_rng_get_thread_base", "apop_asst.m4.c")],
  ["ThreadSanitizer over an OpenMP runtime it fully sees", "results at 1 and at many threads"])
p("C34", "Object lifecycles neither leak nor corrupt memory",
  "Repeating any cycle of creating, using and freeing data sets, names, models, settings, queries and estimates holds memory steady: nothing allocated during the cycle is left behind once its results are freed, nothing is freed twice or used afterwards, and no operation reads or writes outside its objects.",
  ["histories", "inputs"], "all cycles over the public constructors, operations and destructors",
  "the tests never measure memory and run without a sanitizer",
  ["apop_data.m4.c", "apop_name.m4.c", "apop_model.m4.c", "apop_settings.c", "apop_db.m4.c"], [("apop_data_free_base, apop_name_free, apop_model_free", "apop_data.m4.c, apop_name.m4.c, apop_model.m4.c")],
  ["allocator byte counts around repeated cycles", "sanitizer reports"])
p("C35", "The command-line tools move data faithfully",
  "apop_text_to_db puts every row of its input file into the table it names under its options, apop_db_to_crosstab prints the cross tabulation of the columns it is given, and apop_plot_query writes the data its query returns, without crashing; given missing, unknown or overlong arguments each says so, and touches nothing it was not told to.",
  ["inputs", "configurations"], "all files, tables, option combinations and long arguments",
  "one shell script runs each once or twice",
  ["cmd"], [("main", "cmd/apop_text_to_db.c"), ("main", "cmd/apop_db_to_crosstab.c"), ("main", "cmd/apop_plot_query.c")],
  ["exit status, stdout, tables read back through the SQLite library"])
p("C36", "Raking fits the margins and keeps the seed's structure",
  "apop_rake returns a table of nonnegative weights whose margins over each given contrast equal those of the margin table to the tolerance (when the iteration converges and the margins are feasible), with structural zeros kept at zero and the seed's odds ratios kept where there is a seed table; the tables it reads are left as they were.",
  ["inputs", "configurations"], "all margin tables, contrasts, seeds, structural zeros and NaN wildcards",
  "the tests rake a few fixed tables",
  ["apop_rake.m4.c"], [("apop_rake", "apop_rake.m4.c")],
  ["margins of the result against margins of the input"])
p("C37", "Missing-data handling drops or fills exactly the missing cells",
  "apop_data_listwise_delete keeps exactly the rows with no missing number (or text when so configured), in order with everything belonging to the row, in a copy or in place; apop_ml_impute fills every missing cell and changes no observed one; factor and database NaN handling use the same NaN string throughout.",
  ["inputs", "configurations"], "all patterns of missingness, none to all, in every part of the set",
  "the tests drop rows from one data set",
  ["apop_missing_data.m4.c"], [("apop_data_listwise_delete", "apop_missing_data.m4.c"), ("apop_ml_impute", "apop_missing_data.m4.c")],
  ["rows kept", "cells before and after imputation"])
p("C38", "Bad input is reported, not fatal",
  "Public functions given NULL, empty, mismatched or unreadable input report it as documented (error element, NaN, NULL or nonzero), log it, and leave the process running and the library usable, with all other live objects as they were; nothing ends the process unless apop_opts.stop_on_warning asks for it.",
  ["inputs", "fault_sequences"], "all public functions by all kinds of invalid argument, and unopenable files and databases",
  "the tests provoke some twenty errors",
  ["apop_internal.h", "apop_data.m4.c", "apop_db.m4.c", "apop_linear_algebra.m4.c"], [("Apop_stopif", "apop.m4.h"), ("apop_gsl_error", "apop_linear_algebra.m4.c")],
  ["return values, error elements, survival of the process, canary objects after"])

p("C39", "Smoothing, divergences and special functions equal their definitions",
  "The loess model's fit at each point equals the local regression its documentation describes (tricube weights over the nearest neighbours, in its degree, span and family), its predictions at the training points equal that fit, its confidence bounds are ordered and widen with the level. apop_kl_divergence, apop_model_entropy, apop_estimate_coefficient_of_determination, apop_estimate_parameter_tests, apop_generalized_harmonic, apop_multivariate_gamma, apop_multivariate_lngamma, apop_beta_from_mean_var, apop_vector_distance-type norms and the remaining numerical helpers return the value their mathematical definition gives, and leave their inputs alone.",
  ["inputs", "configurations"], "all data, settings and parameters in the documented domain",
  "the tests smooth one data set and evaluate each function at a point or two",
  ["model/apop_loess.c", "apop_stats.m4.c", "apop_asst.m4.c", "apop_regression.m4.c", "model/apop_beta.c"], [("apop_loess", "model/apop_loess.c"), ("apop_kl_divergence", "apop_stats.m4.c"), ("apop_model_entropy", "apop_model.m4.c"), ("apop_generalized_harmonic", "apop_asst.m4.c")],
  ["fitted values, predictions and their bounds", "return values against reference computations in long double"])

METHOD = {}  # id -> (technique, level_note) overrides
na = {}
here = lambda *a: os.path.join(V, *a)
with open(here("properties.jsonl"), "w") as f:
    for d, _ in P:
        f.write(json.dumps(d) + "\n")
checks, notapp = [], []
for d, _ in P:
    i = d["id"]
    if os.path.exists(here("harness", i + ".c")) or os.path.exists(here("harness", i + ".py")):
        tech = "runtime monitoring: generated workloads under ASan+UBSan with reference-model oracles"
        if i == "C33":
            tech = "runtime monitoring: ThreadSanitizer over an instrumented OpenMP runtime, with result oracles"
        if i == "C34":
            tech = "runtime monitoring: allocator byte-count monitor over repeated lifecycles, under ASan+UBSan"
        if i == "C35":
            tech = "runtime monitoring: ASan+UBSan command-line programs on generated inputs, output oracles"
        checks.append(dict(property=i, quick_cmd="python3 run_check.py " + i, thorough_cmd="VERIF_TIER=thorough python3 run_check.py " + i,
                           technique=tech, level="exploration",
                           level_note="Held on the executions counted in the evidence file; says nothing of inputs not generated. See DESIGN.md."))
    else:
        notapp.append(dict(property=i, reason="no check has been built for it yet"))
m = dict(version=1, setup_cmd="python3 lib/vbuild.py asan plain && python3 lib/vbuild.py tsan", checks=checks, not_applicable=notapp)
with open(here("MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(P), "properties,", len(checks), "checks")
