MODELS = 'model/apop_normal.c model/apop_exponential.c model/apop_gamma.c model/apop_beta.c model/apop_t.c model/apop_uniform.c'
p('M01', 'Continuous log likelihoods are the sums of the documented log densities',
  'For the Normal, Lognormal, Exponential, Gamma, Beta, t, Uniform and improper Uniform models, the log likelihood is the sum over all observations, whether in the vector, the matrix or both, of the log of the documented density at the given parameters, and apop_p is its exponential. Observations outside the support of the Uniform or Beta give minus infinity. The data are not changed.', IC,
  'all real observations and parameters, in five layouts', 'Tests evaluate a few likelihoods at fixed parameters; a dropped constant or a skipped column goes unnoticed.', MODELS,
  [('log likelihood', 'model/*.c: *_log_likelihood, *_p'), ('dispatch', 'apop_model.m4.c: apop_log_likelihood, apop_p')])
p('M02', 'Discrete log likelihoods are the sums of the documented log probabilities',
  'For the Bernoulli, Binomial, Multinomial, Poisson, Yule and Zipf models the log likelihood is the sum over all observations of the log of the documented probability, whether the data are in the vector, the matrix or both (one row per observation for Binomial and Multinomial), and apop_p is its exponential. The parameters are left alone.', IC,
  'all parameters; all small counts (all positive reals for Yule and Zipf); five layouts', 'Tests use a few parameter values and a single layout.', 'model/apop_bernoulli.c model/apop_multinomial.c model/apop_poisson.c model/apop_yule.c model/apop_zipf.c',
  [('log likelihood', 'model/*.c: *_log_likelihood, multinomial_log_likelihood')])
p('M03', 'Dirichlet and multivariate Normal log likelihoods match their definitions',
  'The Dirichlet log likelihood is the sum over rows of the log Dirichlet density, and the multivariate Normal log likelihood the sum over rows of the log density with the given mean vector and covariance matrix, for any positive definite covariance. The parameters are left alone.', IC,
  'all parameters (every positive definite matrix) and observations', 'Tests use diagonal or otherwise special covariances.', 'model/apop_dirichlet.c model/apop_multivariate_normal.c',
  [('log likelihood', 'dirichlet_log_likelihood, apop_multinormal_ll')])
p('M04', 'The score is the gradient of the log likelihood',
  'Where a model supplies a score function, the vector it fills is the exact gradient of the log likelihood in the parameters at the given data and parameters, for the Normal, Lognormal, Exponential, Gamma, Beta, Poisson, Yule and Dirichlet models, and the parameters are left as given.', IC,
  'all parameters and observations; five layouts', 'Tests compare the score with a numerical derivative at a few points with a loose tolerance.', MODELS,
  [('score', 'model/*.c: *_dlog_likelihood; apop_model.m4.c: apop_score')])
p('F01', 'Mapping applies the function once to each element, row or column',
  'apop_map, apop_map_sum, apop_matrix_map, apop_vector_map, the apply variants and their sums call the given function once for each scalar, vector or one-row data set of the part asked for, with the parameter and position it should have, and put each result (or the sum) where it belongs: in a new data set of the right shape carrying the names of what was mapped, in place, or nowhere when asked for no output. Otherwise the input is left alone, all pages are covered exactly when asked for, and mismatched requests give an error data set marked p.', IC,
  'all values and every affine function; all twelve function forms; all parts, places and page options; small shapes', 'Tests map a few functions over one or two shapes and rarely look at names, pages or in-place output.', 'apop_mapply.m4.c',
  [('mapping', 'apop_mapply.m4.c: apop_map, apop_map_sum, mapply_core'), ('older forms', 'apop_mapply.m4.c: apop_matrix_map, apop_vector_map, apop_matrix_apply, ...')])
p('M05', 'Closed-form estimates, their names, covariances and reports are as documented',
  'Estimating a Normal, Lognormal, Exponential, Poisson, Bernoulli, Beta, Gamma, Uniform, t, Binomial, Multinomial or multivariate Normal model leaves the original model and the data alone and returns a copy whose parameters are the documented closed-form estimates over every observation in the vector and the matrix (sample mean and variance, moments, frequencies, extremes), named as documented. The documented covariance page is present exactly when wanted and holds the documented values, the reported log likelihood is that of the data under the estimate, the size of a draw fits the data, and Normal and Lognormal predictions are the expected values.', IC,
  'all real observations in five layouts; all small counts', 'Tests estimate a few models from one large draw and check the parameters loosely.', MODELS + ' model/apop_bernoulli.c model/apop_multinomial.c model/apop_poisson.c model/apop_multivariate_normal.c apop_model.m4.c',
  [('estimates', 'model/*.c: *_estimate, get_mu_var'), ('dispatch', 'apop_model.m4.c: apop_estimate, apop_predict')])
p('M06', 'Cumulative distribution functions give the probability at or below the point',
  'apop_cdf gives the closed-form cumulative probability for the Normal, Lognormal, Exponential, Gamma, Beta, Uniform, t, Bernoulli, Binomial and improper Uniform (always one half) at the first observation, whether it is held in a vector or in a matrix. For a model without a closed form it is the share of the requested number of draws that are at or below the point in every dimension, and those draws are made once and kept. The parameters are left alone.', IC,
  'all real points and parameters; all draws of a model up to three draws in two dimensions', 'Tests check the CDFs at a few symmetric points.', MODELS + ' model/apop_bernoulli.c model/apop_multinomial.c apop_model.m4.c',
  [('cdf', 'model/*.c: *_cdf; apop_model.m4.c: apop_cdf')])
p('M07', 'Random draws come from the named distribution with the model parameters',
  'apop_draw on the Normal, Lognormal, Exponential, Gamma, Beta, t, Uniform, Poisson, Bernoulli, Binomial, Multinomial, Dirichlet and multivariate Normal draws from the generator the right distribution with the right parameters, transforms the result as the definition requires (location, scale, exponential, Cholesky factor of the covariance, counts that add up to the number of draws), writes exactly one draw and leaves the parameters alone. A draw from an OLS or Logit model is the outcome and then the regressors: these come from the input distribution (the data by default for a Logit; an error if it is improper), and the outcome is Xβ plus a Normal error with variance SSE/n, or a category with its Logit probability at X. The hypergeometric B3 draw is a Poisson at the ratio of Gamma draws. apop_model_draws makes one draw per row, in order, in a new or the given matrix, marks failed rows with NaN and the set with error d, and gives the documented error codes for unusable input.', IC,
  'all parameters and all values the generator may return', 'Tests look at moments of many draws, which cannot tell close distributions or rare cases apart.', MODELS + ' model/apop_bernoulli.c model/apop_multinomial.c model/apop_poisson.c model/apop_multivariate_normal.c model/apop_dirichlet.c model/apop_ols.c model/apop_probit.c apop_asst.m4.c',
  [('draws', 'model/*.c: *_rng, mvnrng; apop_model.m4.c: apop_draw'), ('many draws', 'apop_asst.m4.c: apop_model_draws')])
p('Q01', 'A data set written to a database table reads back the same',
  'apop_data_print to a database table writes one row per observation and one column per part: row names (under apop_opts.db_name_column, when every row is named and that option is set), vector, matrix, text, weights, with the names of the data set or vector, c0, c1, tc0, weights for parts without names. NaN, blank text and text equal to apop_opts.nan_string are blank (NULL); parts shorter than the rest are padded with blanks and never shift other columns. Reading the table back gives the same numbers, text and names. Writing over replaces the table, appending adds rows, other tables are left alone; apop_table_exists reports and removes exactly the named table or view; a database on disk keeps its tables after closing.', IC,
  'all numbers, for every combination of parts, names, blanks and write modes', 'Tests write one or two shapes; a shift of columns appears only for particular combinations of parts.', 'apop_db.m4.c apop_db_sqlite.c apop_output.m4.c apop_conversions.m4.c',
  [('writing', 'apop_db.m4.c: apop_data_to_db, run_prepared_statements'), ('tables', 'apop_db.m4.c: apop_table_exists, apop_db_open, apop_db_close')])
p('Q02', 'Query results keep every row, column, name and blank in place',
  'apop_query_to_data, _vector, _float, _text and _mixed_data give one row per result row and one column per result column in order, with column names; the column matching apop_opts.db_name_column (ignoring case, anywhere in the query) becomes row names, and a blank there does not shift the other names; NULL and text equal to apop_opts.nan_string become NaN in numbers and apop_opts.nan_string in text. Text is copied as it is. Mixed queries put columns where the type letters say; a differing number of columns sets error d. No rows gives NULL (NaN from apop_query_to_float); invalid SQL gives error q, NULL or NaN and a nonzero status; printf-style arguments are filled in.', IC,
  'all numbers, for every layout of columns, blanks and type strings within the bounds', 'Tests run a few ordinary queries; name columns in the middle, blanks and failed queries are hardly tried.', 'apop_db.m4.c apop_db_sqlite.c',
  [('queries', 'apop_db.m4.c: apop_query_to_data, apop_query_to_vector, apop_query_to_float, apop_query_to_text'), ('mixed', 'apop_db_sqlite.c: apop_sqlite_multiquery, multiquery_callback')])
p('Q03', 'The SQL functions Apophenia adds compute what they are documented to',
  'In queries, var, var_samp, stddev, stddev_samp are the sample variance and standard deviation; variance, var_pop, std, stddev_pop the population ones; skew, kurt and kurtosis the unbiased sample moments, equal to apop_vector_skew and apop_vector_kurtosis; all work by group and skip blanks. sqrt, pow, exp, log, ln, log10, sin, cos, tan, asin, acos, atan give the function of the same name row by row (log is natural). ran() gives every row a fresh number in [0,1).', IC,
  'all columns of numbers within the bounds', 'Tests compare large samples to a tolerance, which hides corrections of order 1/n.', 'apop_db_sqlite.c apop_stats.m4.c',
  [('aggregates', 'apop_db_sqlite.c: twoStep, threeStep, fourStep, *Finalize'), ('functions', 'apop_db_sqlite.c: powFn, sqfn, rngFn')])
p('T01', 'Text files are read into data sets by the documented rules',
  'apop_text_to_data gives one row per line holding data and one column per field, in order. Fields are split at the given delimiters (by default pipe, comma, tab); white space around a field is dropped; runs of space or tab delimiters count once while other repeated delimiters, also before the end of the line, make blank fields; quotes and backslashes protect what they cover; an unprotected # starts a comment; blank lines are skipped; NUL is white space; a last line without a newline counts like any other. Blank or non-numeric fields and those missing from a short line are NaN. Row and column names are taken exactly when asked for. A longer line, an unreadable file, or one with no data sets error t.', IC,
  'all files of up to five pieces (numbers with any value, letters, white space, delimiters, quotes, escapes, comments, line ends, NULs), three sets of delimiters, with and without names', 'Tests read a few well-formed files.', 'apop_conversions.m4.c',
  [('reader', 'apop_conversions.m4.c: apop_text_to_data, parse_a_line, parse_next_char, get_field_names')])
p('T02', 'Text files are read into database tables by the documented rules',
  'apop_text_to_db makes a table with one row per line of data and one column per field, split as for text files in general or at the given fixed widths, and returns the number of rows, or -1 if there is nothing to read. Blank fields, fields missing from short lines, and text equal to apop_opts.nan_string (ignoring case) are NULL; infinities and other text are kept. Columns get the names in the file, the given names, or col_0, col_1, ...; row names go to row_names; the table is named for the file unless told otherwise. An existing table is left alone, emptied, replaced or appended to as if_table_exists says; other tables stay. Field types and table constraints are used.', IC,
  'all files of up to four pieces; all numbers; names, widths, types and modes in the stated combinations', 'Tests read a few well-formed files into new tables.', 'apop_conversions.m4.c apop_db_sqlite.c',
  [('table reader', 'apop_conversions.m4.c: apop_text_to_db, tab_create_sqlite, line_to_insert, prep_string_for_sqlite, parse_a_fixed_line')])
p('T03', 'Printed data sets are complete and can be read back',
  'apop_data_print, apop_matrix_print and apop_vector_print write every page, row and column of what they are given to the named file, the open pipe or the table, in order, with names. A file or pipe so written reads back with apop_text_to_data or apop_text_to_db as the same numbers and row and column names (vector first). Writing over replaces the file and appending adds to its end. Pipes given by the caller and standard output stay open, the data is left alone, NULL input prints NULL, the show functions print the same to standard output with every entry, and a file that cannot be opened is not written to and does no harm.', IC,
  'all numbers in the stated shapes, delimiters, pages and modes', 'Tests print one data set and compare it with a sample.', 'apop_output.m4.c apop_conversions.m4.c',
  [('printing', 'apop_output.m4.c: apop_data_print, apop_data_print_core, apop_vector_print, apop_matrix_print, apop_prep_output')])
p('R01', 'Least squares gives the exact estimates and the statistics that go with them',
  'apop_estimate with apop_ols, weighted or not, gives parameters whose residuals are orthogonal to every column under the weights; the error variance, covariance page, observed, predicted and residual (observed minus predicted, unweighted) columns, SSE, SST, SSR, R squared, adjusted R squared, log likelihood, AIC, AIC_c, BIC, degrees of freedom, p values and confidence follow from them by their definitions, with the weights in the sums of squares. Without a vector, column zero is the dependent variable and becomes a column of ones; the rest of the data and the weights are left alone. Only the wanted parts are made. Names carry over. apop_predict gives X beta; apop_score is the gradient of the log likelihood. Collinear or missing data sets an error.', IC,
  'all real data in the stated shapes, all positive weights', 'Tests compare a few data sets at one tolerance and look at few of the statistics; weighted ones only with equal weights.', 'model/apop_ols.c apop_regression.m4.c apop_mle.m4.c apop_linear_algebra.m4.c',
  [('estimation', 'model/apop_ols.c: apop_estimate_OLS, xpxinvxpy, prep_names, ols_prep, ols_log_likelihood, ols_score, ols_predict'), ('statistics', 'apop_regression.m4.c: apop_estimate_parameter_tests, apop_estimate_coefficient_of_determination; apop_mle.m4.c: add_info_criteria')])
p('R02', 'Instrumental variable estimates solve the instrumented normal equations',
  'apop_estimate with apop_iv gives parameters whose weighted residuals are orthogonal to every instrument, where the instrument data replaces the columns given by number or by name and the other columns are their own instruments; the error variance comes from those residuals, the covariance is the sandwich s2 (Z\'WX)^-1 Z\'WZ (X\'WZ)^-1, and predictions, names and wanted parts are as for apop_ols. Data, weights and instruments are left alone. With no or empty instruments the result is that of apop_ols.', IC,
  'all dependent variables, instruments (or regressors) and a weight, in the stated shapes', 'The one example compares variances of successive noisy fits.', 'model/apop_ols.c',
  [('IV', 'model/apop_ols.c: apop_estimate_IV, prep_z, weighted_copy')])
p('R03', 'Probit and logit likelihoods, gradient, predictions and categories are right',
  'apop_prep numbers the outcome categories in order from zero, moves the outcome to the vector and gives one parameter row per regressor and one named column per category but the first; doing it twice changes nothing. The logit log likelihood is the sum of the log shares exp(x b) over their total with the first category at zero; the probit log likelihood is the sum of log normal probabilities, and with more categories the sum over the columns of one probit each. The probit score is its gradient. Logit predictions are those shares and the most likely category. Likelihoods leave the data alone.', IC,
  'all parameters (probit: x beta within 4 of zero), two or three categories coded by any numbers', 'Tests fit simulated data to wide tolerances, always coded 0, 1.', 'model/apop_probit.c apop_regression.m4.c',
  [('models', 'model/apop_probit.c: probit_prep, multiprobit_log_likelihood, probit_dlog_likelihood, multilogit_log_likelihood, multilogit_expected')])

p('H01', 'Hypothesis tests report the right statistic, degrees of freedom and p value',
  'For all data: t tests and paired t tests report the difference of the means, that difference over its standard error, the degrees of freedom, and one- and two-tailed p values and confidences that are tails of the t distribution at the statistic. The F test reports the quadratic form in Q beta - c over the error sum of squares for any linear hypotheses, the constant included, with the F tail as p value, and hands the contrasts back as they came. Independence tests report the chi-squared statistic and its tail; one- and two-way ANOVA tables split the total sum of squares and degrees of freedom exactly, with the F tail as p value. apop_test gives the tail asked for of each distribution it lists, and NaN when it cannot.', IC,
  'every value of the data, table cells, contrasts, statistics and parameters', 'No test in the suite calls the t tests, ANOVA or apop_test with a check on the answer; the F test is run on one data set.', 'apop_tests.m4.c',
  [('tests', 'apop_tests.m4.c: produce_t_test_output, apop_t_test, apop_paired_t_test, apop_f_test, apop_test_anova_independence, apop_anova, apop_test')])

p('B01', 'Jackknife and bootstrap covariances are those of the re-estimated parameters',
  'apop_jackknife_cov is (n-1)/n times the summed cross products, about their mean, of the estimates that leave out each row. apop_bootstrap_cov draws every row of every resample uniformly from all rows, takes whole rows (vector, matrix, weights), estimates once per resample, returns the sample covariance of the estimates and stores them, with names, when asked; estimates that are NaN are kept or redrawn as requested, and nothing but NaNs is an error. Neither alters the data or the model, including models that rearrange their input. apop_parameter_model reports the estimate with that covariance.', IH,
  'every value of the data, every sequence of resampled rows, NaN estimates at any iteration', 'Tests bootstrap a Normal a thousand times and compare with wide tolerances.', 'apop_bootstrap.m4.c apop_model.m4.c',
  [('bootstrap', 'apop_bootstrap.m4.c: apop_jackknife_cov, apop_bootstrap_cov'), ('parameter model', 'apop_model.m4.c: apop_parameter_model')])

p('S01', 'Models copy deeply, own their settings groups, and dispatch as documented',
  'Over histories of adding, removing, setting, copying and freeing: each settings group is initialised, copied and freed exactly once and holds the values last set; a copied model has its own parameters, info, settings and extra data and shares only its data set; setting an element of a missing group is an error and nothing else. apop_prep sizes parameters and draws from the declaration or the data, and is idempotent; apop_model_set_parameters fills parameters in order and refuses sizes that depend on data; the generic p, log likelihood, estimate, draw and cdf call what the model provides, converting between density and log density; without a closed form, the cdf is the share of draws, made once, at or below the point.', IH,
  'every history of three (thorough: four) operations, with every value stored in a setting; every number in the copied parts', 'Tests use a few models in a fixed order.', 'apop_model.m4.c apop_settings.c apop.m4.h',
  [('models', 'apop_model.m4.c: apop_model_copy, apop_model_free, apop_model_clear, apop_prep, apop_estimate, apop_p, apop_log_likelihood'), ('settings', 'apop_settings.c')])

p('S02', 'Special-case function tables are maps, and the generic functions use them',
  'For each of the score, predict, parameter model, entropy, print and update tables, over histories of adding and dropping: looking up returns what was first added for models with those functions and not dropped since, and nothing for any other model or table; dropping reports whether something was there. apop_score, apop_predict, apop_parameter_model, apop_model_entropy and apop_model_print call the registered function.', IH,
  'every history of four (thorough: five) additions and drops over two tables at a time and four kinds of model', 'Tests never drop an entry or register two.', 'apop_vtables.c apop.m4.h',
  [('tables', 'apop_vtables.c: apop_vtable_add, apop_vtable_get, apop_vtable_drop')])

p('P01', 'PMFs draw, weigh, accumulate and compress their rows by total weight',
  'A PMF draws each row with probability equal to its weight over the total (every row equally, when unweighted), and a draw is the whole row, vector then matrix (or the row number if asked). The probability of an observation is the total weight of all rows equal to it, numbers and text, over the total; an observation that never appears has probability zero. The CDF at a point is the weight of the rows up to and including it. Estimation keeps the data; compression yields each distinct row once with the summed weights, in place or copied, and changes no probability.', IC,
  'every value of the numbers and weights, every pattern of equal rows, and every random number drawn', 'Tests draw from a few fixed PMFs.', 'model/apop_pmf.c apop_sort.m4.c',
  [('PMF', 'model/apop_pmf.c'), ('compression', 'apop_data_pmf_compress')])

p('P02', 'Binning, goodness of fit and Kolmogorov-Smirnov follow their definitions',
  'Binning puts each value into the bin, a whole number of widths from the offset, that holds it, with the top bin closed when asked or by default; the default spec covers the data with the requested number of bins; data and weights are kept. The goodness of fit statistic sums squared differences over the expected probabilities, skipping zero weights with one fewer degree of freedom each, and is infinite for impossible observations. The KS distance is the largest distance between the two CDFs, on both sides of a step against continuous models, and its confidence is the exact distribution of that distance for the sample sizes.', IC,
  'every value of data, weights, bin width and offset', 'Tests bin fixed data and check rejections of a few sets of random draws.', 'apop_hist.m4.c',
  [('binning', 'apop_hist.m4.c: apop_data_to_bins'), ('tests', 'apop_hist.m4.c: apop_histograms_test_goodness_of_fit, apop_test_kolmogorov, psmirnov2x')])

p('X01', 'Models built from other models combine them as documented',
  'A mixture has the weighted sum of its components\' CDFs, draws from the component whose share of the weights holds the random number, and gives each observation the likelihood of its most likely weighted component, with the average odds as next weights; its parameters are the weights then each component\'s, and changes reach the components. A cross of models adds log likelihoods, multiplies probabilities, concatenates draws, and splits data by page, putting it back, or else rows of draws by columns. A coordinate transformation evaluates the base at the transformed data times the Jacobian. A kernel density is the weighted mean of kernels centred on each row, in density, CDF and draws. Copies outlive originals.', IC,
  'every value of data, weights and parameters, over components with arbitrary log-linear densities, linear CDFs and draws, and the Normal as kernel', 'Tests fit one mixture and one kernel density to fixed data.', 'transform/apop_mixture.c transform/apop_cross.c transform/apop_coordinate_transform.c model/apop_kerneld.c',
  [('mixtures', 'transform/apop_mixture.c'), ('cross', 'transform/apop_cross.c'), ('coordinate transform', 'transform/apop_coordinate_transform.c'), ('kernel density', 'model/apop_kerneld.c')])
p('X02', 'Data-constrained and fixed-parameter models follow their base model',
  'A data-constrained model is the base density divided by the share of it inside the constraint, once per row, inside, and zero outside; the share is recalculated when parameters or the scale setting change and not otherwise; by default it is the fraction of the given number of draws that land inside. Its draws are the first draws of the base inside the constraint. A model with parameters fixed has one parameter per NaN element of the base parameters, over every page, and its likelihood, density, draws, constraint and starting point are the base\'s at the fixed and free values; with nothing free it is a copy. The log likelihood of a coordinate transform is that of the base model at the data sent back plus the log Jacobian, with the parameters shared and the data left alone, or NaN when a piece is missing.', IC,
  'every value of parameters, data, constraint and fixed values, every subset of fixed elements, over a base model with an arbitrary linear likelihood', 'Tests estimate one constrained Normal and one with a fixed parameter.', 'transform/apop_dconstrain.m4.c transform/apop_fix_params.c transform/apop_coordinate_transform.c',
  [('dconstrain', 'transform/apop_dconstrain.m4.c'), ('fix params', 'transform/apop_fix_params.c')])
p('L01', 'Linear constraints give the closest permitted point and its distance',
  'apop_linear_constraint leaves a point that meets every constraint (inside by the margin) alone and returns zero; otherwise it moves the point to the closest one that does, whether on one border or at a corner, and returns the distance moved. Without a constraint set, every element must be at least the margin. Constraints need not be unit vectors, are not changed, and earlier calls do not matter.', IC,
  'every point, and every single constraint and margin; pairs of constraints from a fixed list at obtuse, right and acute angles', 'Tests use one constraint set at fixed points.', 'apop_linear_constraint.m4.c',
  [('linear constraint', 'apop_linear_constraint.m4.c')])
p('U01', 'Bayesian updating follows the conjugate table or weights prior draws',
  'apop_update returns a new model of the prior\'s family, leaving prior and data alone. Beta/Binomial adds hits and misses; Beta/Bernoulli adds the numbers of nonzero and zero elements; Gamma/Exponential and Gamma/Poisson add the sum and the size of the data; Normal/Normal weighs means by precision. Elements of vector and matrix all count, and a parameterized likelihood stands in for data where documented. With a prior that can only draw, the posterior is a PMF with one row per period, whatever the burn-in, each a prior draw weighted by the likelihood there, leaving out draws where it is NaN. Sizes that disagree are marked with error d.', IC,
  'every data set and prior, over each documented pair, and likelihoods and draws with arbitrary values', 'Tests update on fixed data and compare with simulations up to 18 percent.', 'apop_update.m4.c', [('apop_update', 'apop_update.m4.c')])
p('U02', 'Markov chains accept, repeat, burn in and extend as documented',
  'In apop_model_metropolis each step changes one block of parameters (all, each part, or each scalar) by a draw from its proposal, which by default is a Normal around the last accepted point; it is accepted if the likelihood rises or a uniform draw is below the ratio, and otherwise the last accepted point is repeated. Proposals that fail the constraint or have no finite likelihood are replaced, the former marking the result with error c. Output has one equally weighted row for each period after the burn-in; the model is left at the last accepted point; further draws extend the chain on the same data. Chains begin from ones or from the parameters. The default adaptation widens or narrows the proposal toward the target rate. Updating by chain uses prior times likelihood.', IC,
  'every sequence of proposals, likelihoods and uniform draws, over shapes of parameters, blocks, and proposals', 'Tests compare moments of long chains with wide tolerances.', 'apop_mcmc.m4.c apop_update.m4.c', [('chains', 'apop_mcmc.m4.c'), ('prior times likelihood', 'apop_update.m4.c')])
p('R04', 'Raking fits margins from the permitted cells by proportional fitting',
  'apop_rake returns one row for each cell that observed margins allow and structural zeros do not exclude, or for each cell of the initial table, with zero cells nudged if asked. Weights are those of iterative proportional fitting: the initial weights, scaled to the total, then to each margin in turn, until the largest change is below the tolerance. The result is marked with error c if and only if that does not happen within the given rounds; when it does, margins match those of the data. Categories absent from the margins get zero weight. Every column but the counts is a variable unless a list is given. No table is left behind.', IC,
  'every count, over sets of observed cells, contrasts, structural zeros, initial tables and nudges', 'Tests rake one 2x2 table.', 'apop_rake.m4.c', [('raking', 'apop_rake.m4.c')])
p('C01', 'Crosstabs to and from the database hold each cell under its names',
  'apop_db_to_crosstab gives one row and one column for each distinct value, in the database\'s order and named for it, with each cell the value, the aggregate or the count of its rows, zero where there are none and NaN where the value is missing; either dimension may be left out. An empty table gives NULL, a failed query error q, and options are kept. apop_crosstab_to_db writes one row for each matrix and text cell with its row and column name, or r, c, t and the position where there is none, in full precision, including NaN, infinities and names and text with quotes; reading it back gives the same table.', IC,
  'every value of the cells, over sets of categories and names', 'Tests build one crosstab and write it back.', 'apop_conversions.m4.c', [('crosstabs', 'apop_conversions.m4.c')])
p('N01', 'Numerical gradients, Hessians and covariances are those of the likelihood',
  'apop_numerical_gradient gives one derivative per parameter, of the log likelihood or else the probability, in the order that parameters are packed; apop_model_hessian gives the second derivatives, from the score if the model has one, averaging the two estimates of each cross derivative, with rows and columns named for the parameters; apop_model_numerical_covariance gives the negated inverse of that, and attaches it to the parameters as a Covariance page if they have none. None of these changes the model\'s parameters or the data, whatever the step size, given or from the settings.', IC,
  'every value of parameters and data, over polynomial likelihoods with arbitrary coefficients', 'Tests compare a few numerical scores with analytic ones.', 'apop_mle.m4.c', [('derivatives', 'apop_mle.m4.c: apop_numerical_gradient, apop_model_hessian, apop_model_numerical_covariance')])
p('N02', 'Maximum likelihood reports the point where the search ended',
  'apop_maximum_likelihood runs the method asked for with the settings given, from the starting point or ones, on the negated log likelihood (or probability) plus the constraint\'s penalty, at points moved within the constraint, with the gradient of just that. The parameters are then where the search ended; the status is zero if it converged, and not zero if it ran out of iterations or met a NaN; the log likelihood, AIC, AIC_c and BIC are those at the estimate; information, covariance and tests are there when wanted. The path holds each point tried with its value. Steps in annealing are no longer than the step size and keep to the constraint. Data and settings are left alone.', IC,
  'every likelihood of a family, data, starting point and limit, over every behaviour of the optimiser: where it evaluates, where it moves, when it stops', 'Tests check that a few searches end near a known optimum.', 'apop_mle.m4.c', [('maximum likelihood', 'apop_mle.m4.c: apop_maximum_likelihood, negshell, dnegshell, apop_annealing, find_roots')])
p('N03', 'Restarted and cycled searches start where asked and keep the better estimate',
  'apop_estimate_restart searches again on the same data from the old estimate, the old starting point, the new model\'s parameters or its starting point, as asked; it returns the old estimate, unchanged, unless the new one has a larger log likelihood and no element that is not a number or beyond the bound; a start beyond the bound means no search. Cycling over dimensions estimates every parameter, in at least two cycles, leaves the parameters where the last search in each dimension ended, and leaves the settings as they were.', IC,
  'every starting point and estimate, over every behaviour of the optimiser', 'Tests restart two searches and check that they improve.', 'apop_mle.m4.c', [('restart', 'apop_mle.m4.c: apop_estimate_restart'), ('cycling', 'apop_mle.m4.c: dim_cycle')])
p('M08', 'Divergence, entropy and Beta-by-moments match their definitions',
  'apop_kl_divergence from one model to another is, when the first is a PMF, the sum over its points of weight share times the log of its share over the second model\'s probability there (-infinity when the second, also a PMF, gives a point of positive weight no probability; points of zero weight count for nothing), whatever the order or layout of the points and including weights set after the estimation; otherwise it is the mean of the log ratio over exactly the asked-for number of draws from the first model. It is zero from a PMF to itself and NaN for NULL models or ones without a draw size. apop_model_entropy is the closed form for the Normal and otherwise the mean of minus the log likelihood over the asked-for draws. apop_beta_from_mean_var gives the Beta with that mean and variance, or an error when the mean is not between zero and one.', IC,
  'all points, weights, parameters and draws, in the stated shapes', 'Tests compare a divergence with another estimate of it to a loose tolerance.', 'apop_stats.m4.c apop_asst.m4.c',
  [('divergence', 'apop_kl_divergence'), ('entropy', 'apop_model_entropy'), ('Beta', 'apop_beta_from_mean_var')])
p('K01', 'The command-line tools do what their usage messages say',
  'apop_text_to_db puts every row of the file in the named table of the named database once, with the names, row names, delimiters, fixed widths, missing-value string and treatment of an existing table that its options ask for. apop_db_to_crosstab prints the crosstab of the named table by the named row and column, or by one or neither of them, with the data column or else counts in the cells and names alongside, under the given delimiter. apop_plot_query runs the query given as an argument, option or file (however long) on the given database and writes its rows in order below the plot command to the file or standard output, or only the rows with their names, or the histogram of its first column with the given number of bins.', IC,
  'all numbers in the tables, every option, alone or with the arguments it goes with', 'Tests do not run the tools with most of their options.', 'cmd/apop_text_to_db.c cmd/apop_db_to_crosstab.c cmd/apop_plot_query.c',
  [('tools', 'cmd/*.c: main, query, print_out, plot_histogram, read_query')])
