# Properties that this family of technique cannot decide here; each goes under not_applicable in MANIFEST.json.
p('Z01', 'Iterative searches converge to the optimum',
  'For a smooth concave likelihood, each search method of apop_maximum_likelihood ends within the set tolerance of the maximum, and simulated annealing reaches the neighbourhood of the global optimum.', IC,
  'every likelihood and starting point', 'Tests search from one or two points.', 'apop_mle.m4.c', [('searches', 'apop_mle.m4.c: gsl minimizers, annealing')])
p('Z02', 'Eigenvalue-based results match their definitions',
  'Principal components, singular value decompositions and the closest positive semidefinite matrix are those of the exact eigenvectors and eigenvalues.', IC,
  'every matrix', 'Tests decompose one matrix.', 'apop_linear_algebra.m4.c', [('PCA, SVD', 'apop_matrix_pca, apop_sv_decomposition, apop_matrix_to_positive_semidefinite')])
p('Z03', 'Adaptive rejection sampling draws from the log-concave density',
  'apop_arms_draw returns draws distributed according to the density of the model.', IC,
  'every log-concave density', 'Tests look at moments of a sample.', 'apop_arms.c', [('ARMS', 'apop_arms.c')])
p('Z04', 'Fisher\'s exact test sums the probabilities of tables no likelier',
  'apop_test_fisher_exact gives the total probability, with the margins fixed, of the tables no likelier than the given one.', I,
  'every table of counts', 'Tests compare a few tables with published p values.', 'apop_fexact.c', [('Fisher exact', 'apop_fexact.c')])
p('Z05', 'Parallel mapping gives the serial result under every interleaving',
  'With any number of threads, mapping, draws and updates give the results of a serial run, whatever the interleaving of the threads.', IH,
  'every schedule', 'Tests run one schedule.', 'apop_mapply.m4.c apop_data.m4.c', [('OpenMP regions', 'apop_mapply.m4.c, apop_bootstrap.m4.c, apop_db_sqlite.c')])
p('Z06', 'The MySQL back end gives the same results as SQLite',
  'With a MySQL database, queries, tables and text import give what they give with SQLite.', IC,
  'every query', 'Tests do not run MySQL.', 'apop_db_mysql.c', [('MySQL', 'apop_db_mysql.c')])
p('Z07', 'Missing-data imputation fills each gap with its most likely value',
  'apop_ml_impute fills missing elements with the values that maximise the likelihood of the model, and leaves the others alone.', IC,
  'every pattern of missing data', 'Tests impute one data set.', 'apop_missing_data.m4.c', [('imputation', 'apop_ml_impute')])
p('Z08', 'Loess fits local weighted regressions',
  'The loess model gives at each point the fit of the weighted polynomial regression over its neighbourhood.', IC,
  'every data set and span', 'Tests fit one data set.', 'model/apop_loess.c', [('loess', 'model/apop_loess.c')])
NA = [
 ('Z01', 'Convergence depends on floating-point step control inside GSL\'s optimisers and on an unbounded number of iterations; the real-arithmetic encoding has no tolerance to converge to. What the library does around the optimiser is decided by N02 and N03 with an optimiser that may do anything.'),
 ('Z02', 'Eigenvectors and singular values are iterative limits in GSL with no closed form over the reals for symbolic matrices.'),
 ('Z03', 'The claim is about a distribution; the algorithm\'s envelope grows with every draw by transcendental comparisons of symbolic densities, beyond what z3 decides.'),
 ('Z04', 'The network algorithm is integer hashing and table paths driven by floating-point comparisons on a fixed work array; with symbolic counts the paths explode, and with concrete counts it would be enumeration of runs.'),
 ('Z05', 'The symbolic runs are of the code compiled without OpenMP, in one thread; interleavings of its parallel regions are not encoded.'),
 ('Z06', 'No MySQL client library or server is installed, and this build leaves the back end out.'),
 ('Z08', 'The code is a translation of a Fortran kd-tree and interpolation package: neighbourhoods are found by ordering symbolic distances, and the fits by QR and SVD with tolerances; neither is within reach of the encoding.'),
 ('Z07', 'The result is the end point of a numerical search (see Z01), and the covariance model it needs is estimated by another.'),
]
