prop('C01', 'Settings files resolve inheritance, types and edits faithfully',
     'Loading a settings file gives every key the value written in that file or in a file it INCLUDEs (a key set twice '
     'this way is rejected), otherwise the value from the first DEFAULT file that provides it, with $(NAME) placeholders '
     'replaced from the environment, comments and text after END ignored and relative paths taken from the file containing them. '
     'Integer, float, boolean, string, list and indexed getters return the written value in the requested type, the '
     'supplied default only when the key is absent or empty, and an error when there is neither. '
     'Saving (also in place, also with inheritance kept) and re-loading gives the same settings and changes no other file.',
     ['inputs', 'histories', 'configurations'],
     'all trees of files with INCLUDE/DEFAULT, all key/value texts, all edit/save/reload histories',
     'The tests never read an ini file with inheritance; the guarantee is over all file trees, value texts and edit histories.',
     [G + 'inifile.py'], [('IniFile.readFile, fileLines, typed getters', G + 'inifile.py')],
     'Hypothesis: generated file trees and edit histories against a reference resolver; typed round-trips',
     'Generated-input search against an independent resolver; assumes values contain $ only as $(NAME) or $$.')

prop('C02', 'Parameter name lists keep order, labels and lookups through files and renames',
     'A parameter-name file read back after saving gives the same ordered names, derived flags, labels and comments, and '
     'label overrides from another file change only the labels of parameters they name. '
     'Looking a parameter up by name, by any alias known to it or supplied by the caller, or by glob pattern finds exactly the '
     'parameters that match, in list order, and reports absence otherwise. '
     'Merging alias tables joins all names connected through any chain of shared aliases, and never mixes unconnected ones.',
     ['inputs', 'histories'], 'all name lists, labels, comments, alias tables and glob patterns',
     'The tests use two fixed parameter lists; aliases are tested on one example.',
     [G + 'paramnames.py'], [('ParamList lookup and mergeRenames', G + 'paramnames.py')],
     'Hypothesis: round-trips and reference lookup / connected-component models',
     'Generated-input search against reference models of lookup and alias merging.')

prop('C03', 'Parameter range files round-trip and keep one-sided limits one-sided',
     'A parameter range read from a file, set by hand, or written out and read back keeps its lower and upper limits (to the '
     'printed 7 decimals), with an unspecified or infinite limit staying unlimited on that side only. '
     'A parameter is reported as fixed exactly when both limits are given and equal, and a set of samples given ranges '
     '(as a list, dictionary, table or file) reports exactly those limits.',
     ['inputs', 'histories'], 'all names, limit values and sequences of range updates',
     'The tests set one range by hand; nothing covers files, one-sided limits or updates.',
     [G + 'parampriors.py', G + 'mcsamples.py'], [('ParamBounds', G + 'parampriors.py'),
                                                   ('MCSamples.setRanges/readRanges/_setLikeStats limits', G + 'mcsamples.py')],
     'Hypothesis: stateful range-table model and file round-trips',
     'Generated-input search against a dictionary model.')

prop('C04', 'Covariance files, rescaling and merging preserve every covariance entry',
     'A parameter covariance saved to file reloads with the same names and values, and its correlation matrix is the covariance '
     'divided by the standard deviations, for any number of parameters including one. '
     'Rescaling multiplies exactly the entries of the named parameters, and merging another covariance keeps all entries of the '
     'first, adds those of parameters only the second has, and leaves zero where neither gives a value; the command-line '
     'combine and rescale tools write the same results.',
     ['inputs', 'histories'], 'all parameter name sets, matrices, scale factors and merge orders',
     'No test touches covariance files.',
     [G + 'covmat.py', G + 'covcomb.py', G + 'covscale.py'], [('CovMat', G + 'covmat.py')],
     'Hypothesis: dictionary-of-entries reference model, file round-trips',
     'Generated-input search against an entry-wise model.')

prop('C05', 'Weighted sample statistics equal the weighted sums over rows',
     'Means, variances, standard deviations, covariances, correlations, weighted likelihood summaries (best sample, mean '
     'log-likelihood, log of mean inverse likelihood) and the N-dimensional limits of any weighted sample set equal the corresponding '
     'weighted sums over its rows, whether a parameter is given by name, index or array and with or without a filter on rows. '
     'They do not depend on the order of rows or on an overall scaling of the weights, and repeating a row k times is '
     'equivalent to giving it weight k.',
     ['inputs'], 'all weighted sample sets and parameter selections',
     'Tests sample one large Gaussian chain with loose tolerances; weight conventions and filters are untested.',
     [G + 'chains.py', G + 'mcsamples.py'], [('WeightedSamples mean/var/cov/corr', G + 'chains.py'), ('_setLikeStats', G + 'mcsamples.py')],
     'Hypothesis: direct weighted sums as oracle, metamorphic weight/row relations',
     'Generated-input search against direct sums in double precision.')

prop('C06', 'Confidence limits put the requested weight in the tail',
     'A sample confidence limit at tail fraction f of the lower (upper) tail has at most a fraction f of the total weight strictly beyond '
     'it and at least f once the neighbouring sample is included, for every weighted sample set, and limits are ordered in f. '
     'Two-tail limits, one-tail limits and limits over a restricted row range are consistent with the same counting, and '
     'limits transform with any increasing change of variable.',
     ['inputs'], 'all weighted samples and tail fractions',
     'Tests check a single Gaussian at two limits with tolerance.',
     [G + 'chains.py'], [('WeightedSamples.confidence, twoTailLimits, initParamConfidenceData', G + 'chains.py')],
     'Hypothesis: counting oracle over rows, metamorphic monotone maps',
     'Generated-input search against counting.')

prop('C07', 'Thinning keeps every f-th unit of sample weight',
     'Thinning an integer-weighted chain by f selects the rows holding every f-th unit of weight, so the number kept is the total '
     'weight over f to within one and each row appears in proportion to its weight; per-chain thinning treats every chain separately and '
     'non-integer weights are refused. '
     'Single-weight random samples are real rows chosen with probability proportional to weight, and thinned or '
     'single-sample output files contain exactly those rows.',
     ['inputs', 'schedules'], 'all weights, factors and random streams', 'Tests thin one chain once and look at the mean.',
     [G + 'chains.py', G + 'mcsamples.py'], [('thin_indices, random_single_samples_indices', G + 'chains.py'),
                                             ('makeSingleSamples, writeThinData', G + 'mcsamples.py')],
     'Hypothesis: expanded unit-weight model', 'Generated-input search against an expanded unit-weight model; '
     'the random draw is checked with binomial bounds at fixed seeds (failure probability below 1e-9 per case).')

prop('C08', 'Histories of sample edits act on whole rows and keep chains separate',
     'After any sequence of filtering, importance re-weighting, cooling, weight-based removal, burn-in removal, thinning, adding '
     'or dropping parameters, copying and settings changes, samples, weights and likelihoods are those of a row-by-row model of '
     'the same edits, and every statistic, named parameter, limit and separate chain reported afterwards is that of the current rows. '
     'Editing a copy never changes the original, and burn-in is removed from each chain, '
     'before or after the chains are combined according to the request.',
     ['histories', 'inputs'], 'all edit sequences on one or several chains',
     'Tests perform single edits on a single chain; caches and chain boundaries only go wrong along histories.',
     [G + 'chains.py', G + 'mcsamples.py'], [('Chains edits, chain_offsets and cached statistics', G + 'chains.py'),
                                             ('MCSamples._initParamRanges/needs_update', G + 'mcsamples.py')],
     'Hypothesis: stateful histories against a row model', 'Generated histories of up to 8 edits against a row-by-row model.')

prop('C09', 'Convergence and effective-sample diagnostics measure the actual correlations',
     'Auto-correlations, correlation lengths, Gelman-Rubin values (single, eigenvalue and covariance-based), split tests, '
     'Raftery-Lewis thinning and effective sample numbers equal their defining sums over the weighted rows of the chains, '
     'in sample or in weight units, for any chains. '
     'The printed convergence report and the .corr/.converge output contain those values for every parameter, do not depend on how often '
     'or in what order they are requested, and asking for them leaves the samples unchanged.',
     ['inputs', 'histories'], 'all sets of weighted, correlated chains and diagnostic options',
     'Tests only look at one independent Gaussian chain; the definitions matter for correlated and weighted chains.',
     [G + 'chains.py', G + 'mcsamples.py'], [('getCorrelationLength, getGelmanRubin*', G + 'chains.py'),
                                             ('getConvergeTests, getEffectiveSamplesGaussianKDE', G + 'mcsamples.py')],
     'Hypothesis: direct lagged sums and an independent Raftery-Lewis/Gelman-Rubin implementation as oracle',
     'Generated-input search against definitions evaluated by direct loops; the report is compared at printed precision.')

prop('C10', 'Chain files round-trip and only the chains of the requested root are read',
     'Saving samples and loading them from the files gives back the same rows, weights, likelihoods, parameter names, labels, ranges and chain '
     'separation to the written precision, from any directory and by any spelling of the root. '
     'Loading a root reads exactly its own chain files (not those of other roots with similar names, excluded chain numbers, or empty files), '
     'removes burn-in once from each chain as requested by settings or properties file unless it is recorded as already removed, and '
     'combining samples keeps every row of each with the requested relative weights.',
     ['inputs', 'configurations'], 'all chain sets, directory contents, root names and burn-in configurations',
     'Tests save and load one set of chains in one clean directory.',
     [G + 'chains.py', G + 'mcsamples.py', G + 'chain_grid.py'], [('chainFiles, loadChains, saveAsText', G + 'chains.py'),
                                                                  ('loadMCSamples, MCSamplesFromChains', G + 'mcsamples.py')],
     'Hypothesis: file round-trips over generated directories against a naming/row model',
     'Generated-input search over generated directories with decoy files.')

prop('C11', 'Cached sample loading is indistinguishable from loading the files',
     'Loading samples with caching enabled gives the same samples, names, ranges, settings and statistics as loading the files '
     'without the cache, after any history of loads with different settings, chain or metadata file edits, chain removal, '
     'and missing, truncated or corrupted cache files. ',
     ['histories', 'crash_points'], 'all histories of loads, edits, settings changes and cache damage',
     'Tests load once into an empty cache; staleness only shows along histories.',
     [G + 'mcsamples.py'], [('loadMCSamples, getSampleCacheFile', G + 'mcsamples.py')],
     'Hypothesis: stateful histories, differential against uncached loads',
     'Generated histories with a logical clock of file times; edited files are newer than the cache they invalidate.')

prop('C12', 'Convolutions and kernel bandwidths equal their definitions at every size',
     'One- and two-dimensional convolutions, auto-correlations and Gaussian smoothing give the direct sum for every array size and mode, '
     'whether computed directly or by FFT, padded or not, and with fresh, reused or no cache. '
     'The automatic kernel bandwidths satisfy their defining fixed-point equation, scale with the data, do not depend on '
     'reflection, axis order or the normalisation of the counts, and recover the known optimum for Gaussian data.',
     ['inputs', 'histories'], 'all array sizes, modes, cache histories and binned distributions',
     'No test compares the FFT results with direct sums; errors at specific sizes or on re-used caches are invisible.',
     [G + 'convolve.py', G + 'kde_bandwidth.py'], [('convolve1D/2D, convolveGaussian*', G + 'convolve.py'),
                                                   ('gaussian_kde_bandwidth_binned, KernelOptimizer2D', G + 'kde_bandwidth.py')],
     'Hypothesis: direct convolution sums and analytic Gaussian functionals as oracle',
     'Generated-input search; exact (rounding) for convolutions, root-finder tolerance for bandwidths.')

prop('C13', 'Gridded densities are integrated, interpolated and bounded consistently',
     'A density tabulated on a regular grid interpolates through its grid values, vanishes outside the grid, and integrates by the trapezoidal rule, '
     'and after any sequence of normalisations and changes all of these refer to the current values while arrays given by the caller stay unchanged. '
     'Credible limits enclose the region above a common density level holding the requested probability (open at an end where the density '
     'is still above it), contour levels in any dimension have the requested probability above them, and both are nested and follow rescaling '
     'and reflection of the axis.',
     ['inputs', 'histories'], 'all gridded densities, probability levels and normalisation histories',
     'Tests use one smooth Gaussian density per dimension away from edges.',
     [G + 'densities.py'], [('Density1D.getLimits, getContourLevels, normalize', G + 'densities.py')],
     'Hypothesis: independent spline/trapezoid evaluation and mass counting as oracle',
     'Generated-input search; limits judged by enclosed mass to one step of the fine grid.')

prop('C14', 'Marginalised densities are the documented kernel estimates of the samples',
     'One- and two-dimensional marginalised densities equal the boundary- and bias-corrected kernel density estimate of the weighted samples on the documented grid, '
     'for every smoothing, boundary and bias-correction setting given in settings or per call. '
     'They recover the distribution the samples were drawn from, respect hard prior limits, and do not depend on row order, weight normalisation, '
     'other parameters, parameter order, units or sign.',
     ['inputs', 'configurations'], 'all weighted samples, prior limits and smoothing settings',
     'Tests compare two integrals of one Gaussian example; boundary, weight and sign dependence is not sampled.',
     [G + 'mcsamples.py', G + 'kde_bandwidth.py'], [('get1DDensityGridData, get2DDensityGridData, _initParamRanges', G + 'mcsamples.py')],
     'Hypothesis: independent discretised kernel estimate as oracle, plus metamorphic relations',
     'Generated-input search; exact to rounding for fixed widths, statistical tolerance only for recovery of the true density.')

prop('C15', 'Reported means, limits and likelihood statistics are those of the samples',
     'Marginalised means, deviations and one-tail, two-tail or credible limits follow from the samples and their density by the documented rules for every contour and '
     'setting, likelihood statistics and N-D regions are those of the weighted samples, and covariances and single-sample dictionaries contain exactly the requested parameters. '
     'Statistics files load back to the values, limit types, labels and flags that were written.',
     ['inputs', 'configurations'], 'all weighted samples, contours, prior limits and limit settings',
     'Tests print tables for Gaussian samples; one-tail, skewed and unconstrained cases and files are not compared with anything.',
     [G + 'mcsamples.py', G + 'types.py'], [('_setMargeLimits, _setLikeStats, getCovMat', G + 'mcsamples.py'), ('MargeStats, LikeStats', G + 'types.py')],
     'Hypothesis: sample quantiles, density levels and direct sums as oracle; file round-trips',
     'Generated-input search; limit types not judged within 3% of the deciding density level.')

prop('C16', 'Printed constraints and tables say what the statistics are',
     'Numbers are printed correctly rounded to the requested significant figures, and values and errors with matching decimal places to the precision of the errors. '
     'The latex constraint of a parameter states its mean and error, asymmetric errors, one-tail limit or lack of constraint as its statistics say, '
     'and every cell of a results table holds the constraint of the parameter of its row for the result and confidence of its column.',
     ['inputs', 'configurations'], 'all numbers, statistics, limit types, table layouts and parameter subsets',
     'Tests compare one table of one Gaussian sample; rounding at powers of ten and missing parameters are not sampled.',
     [G + 'types.py'], [('float_format, NumberFormatter, ResultTable, MargeStats.texValues', G + 'types.py')],
     'Hypothesis: exact decimal arithmetic and parsing of the produced latex as oracle',
     'Generated-input search; the printed text is parsed back, so the layout of the code does not matter.')

prop('C17', 'Analytic Gaussian mixtures are consistent with each other and with their samples',
     'The density, total mean and covariance of a Gaussian mixture are those of the weighted sum of its components for any dimension and weight normalisation. '
     'Marginal and conditional mixtures satisfy P(x,y) = P(y) P(x|y) with names, labels, limits and parameter order kept, one- and two-dimensional densities are their '
     'tabulated marginals, and simulated samples follow the (truncated) mixture.',
     ['inputs'], 'all mixtures, subsets and orders of parameters, limits and sample numbers',
     'Tests use three fixed mixtures by eye; conditional weights and total covariance are not compared with anything.',
     [G + 'gaussian_mixtures.py'], [('MixtureND, Mixture1D/2D, GaussianND, RandomTestMixtureND', G + 'gaussian_mixtures.py')],
     'Hypothesis: direct multivariate normal formulas, factorisation identities and quadrature as oracle',
     'Generated-input search; samples judged at more than five standard deviations.')

prop('C18', 'Cobaya runs and YAML files are read for what they say',
     'Parameters of a Cobaya information dictionary (sampled, derived, fixed, by interval, distribution, function or post-processing changes) become samples with the right '
     'columns, order, ranges, labels, aliases, flags and burn-in, from memory and from chain files, without changing the information. '
     'The YAML loader returns what was written for any nesting, reads numbers in every notation, and reports errors at the right place.',
     ['inputs', 'configurations'], 'all information dictionaries, post-processing changes, collections and YAML documents',
     'No test reads Cobaya information, collections or YAML files.',
     [G + 'cobaya_interface.py', G + 'yaml_tools.py', G + 'paramnames.py', G + 'mcsamples.py'],
     [('MCSamplesFromCobaya, get_info_params, get_range', G + 'cobaya_interface.py'), ('yaml_load, yaml_load_file', G + 'yaml_tools.py')],
     'Hypothesis: generated information with known meaning as oracle; YAML dump/load round-trips',
     'Generated-input search; information built from a specification that states the expected result.')

prop('C19', 'Best-fit and convergence files are read for what they say',
     'Best-fit files written by the sampler give the value, label, number and kind of every parameter and each likelihood contribution, with or without fixed parameters, weights and labels. '
     'Best-fit dictionaries, statistics with best fit, tables and the extraction scripts return the same values without changing the samples. '
     'Convergence files load the eigenvalues and correlations that were written.',
     ['inputs', 'configurations'], 'all best-fit and convergence files, option combinations and parameter sets',
     'No test reads a best-fit or convergence file.',
     [G + 'types.py', G + 'mcsamples.py'], [('BestFit, ConvergeStats, MargeStats.addBestFit', G + 'types.py'), ('getBestFit, getParamBestFitDict, getConvergeTests', G + 'mcsamples.py')],
     'Hypothesis: files generated from known content in the writer\'s format as oracle; write/read round-trips',
     'Generated-input search; files are generated in the format of the Fortran writer (not built here).')

prop('C20', 'A chain name always means the right chain on disk',
     'Every chain below a directory appears exactly once in a directory grid under a unique name, resolves by that name and by an unambiguous reordering of its parts, and is found from relative and '
     'absolute paths in any supported file layout. '
     'A plotter looks names up in its locations in order with the settings of that location only, and after any history of loads, reloads, file changes, removals and resets the samples, '
     'densities and bounds it returns belong to the chain last loaded under that name, in a grid with burn-in removed once and the settings of grid and job.',
     ['inputs', 'histories', 'configurations'], 'all directory trees, names, locations, settings files and lookup histories',
     'Tests put one chain in one directory; collisions, several locations and reloads are not sampled.',
     [G + 'chain_grid.py', G + 'plots.py', G + 'chains.py'],
     [('ChainDirGrid, get_chain_root_files', G + 'chain_grid.py'), ('MCSampleAnalysis', G + 'plots.py'), ('findChainFileRoot, chainFiles', G + 'chains.py')],
     'Hypothesis: model of the generated directory tree and lookup history as oracle',
     'Generated-input and generated-history search; trees up to four levels, histories up to 12 steps.')

prop('C21', 'A grid has exactly the jobs its settings describe, configured as they say',
     'A settings file gives one full run for every parameter set and data combination of its groups that is not skipped, and one importance or filter job for every requested combination not already covered, '
     'each with its documented name, place and ini files in which options override each other in the documented order and the best matching covariance is proposed. '
     'Jobs are found by parameters and data in any order, selected by exactly the command-line conditions given, and report the state of their files after any history. '
     'A stored grid reads back the same, or is configured again from its own settings if its cache is missing or damaged.',
     ['inputs', 'histories', 'configurations', 'fault_sequences'], 'all settings files, selections, file states and damaged caches',
     'No test makes or reads a grid.',
     ['python/paramgrid/batchjob.py', 'python/paramgrid/gridconfig.py', 'python/paramgrid/batchjob_args.py'],
     [('batchJob.makeItems, jobItem, dataSet, readobject', 'python/paramgrid/batchjob.py'), ('makeGrid', 'python/paramgrid/gridconfig.py'), ('batchArgs', 'python/paramgrid/batchjob_args.py')],
     'Hypothesis: generated settings files against a reference enumeration of jobs and values; model of file-state histories',
     'Generated-input and generated-history search; grids of up to two groups, data names without underscore.')

prop('C22', 'Submitted jobs are the ones asked for and stay known until deleted',
     'Job scripts have every placeholder filled from arguments, template, environment and defaults in that order, and grid submission takes exactly the runs in the requested state, each once with its own ini file. '
     'The job index, queue listings and deletions by id, number, range, name or state agree with the history of submissions: no other job is cancelled or forgotten. '
     'A crash during an index update leaves the index as before or after it.',
     ['inputs', 'histories', 'configurations', 'crash_points'], 'all templates and settings, submission/queue/deletion histories, grid states and crash points of an update',
     'No test submits, lists or deletes a job.',
     ['python/paramgrid/jobqueue.py', 'python/runbatch.py', 'python/deleteJobs.py', 'python/runningJobs.py'],
     [('submitJob, jobIndex, deleteJobs, queue_job_details', 'python/paramgrid/jobqueue.py'), ('job selection', 'python/runbatch.py')],
     'Hypothesis: model-based histories with stand-in queue commands; crash injection at every executed line of an index update',
     'Generated-history search; the queue is a stand-in, one process at a time.')

prop('C23', 'Scripts that work on a grid touch and report exactly the selected jobs',
     'Cleaning, copying, extracting, renaming and adding grids act on exactly the requested files of the selected jobs: nothing is deleted or overwritten without confirmation or in a dry run, '
     'copies have the same contents (less burn in, when asked, and marked so) and read as a grid, and renaming changes no values. '
     'Listings, convergence checks, getdist runs, tables, comparison tables and plots cover every selected job in the requested state once, from its own files, and a comparison shows each job next to the runs it is to be compared with.',
     ['inputs', 'configurations', 'histories'], 'all grids, file states, selections and option combinations of the scripts',
     'No test runs any of the scripts.',
     ['python/cleanup.py', 'python/copyGridFiles.py', 'python/extractDistFiles.py', 'python/renameParam.py', 'python/listGrid.py', 'python/checkConverge.py', 'python/addGridBatch.py',
      'python/runGridGetdist.py', 'python/makeTables.py', 'python/makeParamCompare.py', 'python/makePlots.py'],
     [('file selection and deletion', 'python/cleanup.py'), ('copying', 'python/copyGridFiles.py'), ('renaming', 'python/renameParam.py'), ('addGrid', 'python/addGridBatch.py'),
      ('tables', 'python/makeTables.py')],
     'Hypothesis: scripts run on generated grids of files against a model of the directory tree after the command',
     'Generated-input search; pdflatex is replaced by an empty PATH, getdist by a recording stand-in.')

prop('C24', 'The getdist command analyses the requested rows of the requested chains',
     'The command uses exactly the chain files of the root that are not excluded, removes the burn in once (explicit option, then chain properties, then settings file), drops fixed parameters, '
     'and writes statistics, covariances, convergence tests and thinned samples that equal those of the same rows given as arrays, in the requested directory under the requested name. '
     'PCA text states the components of the mapped, weighted correlations. Plot scripts plot the requested parameters of that chain, and a name pattern does the same for every matching chain.',
     ['inputs', 'configurations'], 'all chains, settings files, option combinations and file layouts',
     'No test runs the command or PCA with mappings.',
     [G + 'command_line.py', G + 'mcsamples.py', G + 'chains.py'],
     [('getdist_script', G + 'command_line.py'), ('PCA, writeThinData, _WritePlotFile', G + 'mcsamples.py'), ('loadChains', G + 'chains.py')],
     'Hypothesis: differential against arrays of the same rows; reference PCA; plot scripts executed with recording stand-ins',
     'Generated-input search; up to three chains of 120 rows, four parameters.')

prop('C25', 'CMB likelihoods of a dataset are those of its bandpowers, windows and covariance',
     'For every .dataset (fields or maps, any subset used or required, any order of the columns in its files) chi-squared is that of the gaussian, Hamimeche-Lewis or exact likelihood '
     'of exactly the used spectra and bins: theory binned with the windows plus linear corrections, calibrated, with noise counted once; zero for a prediction equal to the data. '
     'Spectra files are read by column name. Forecast datasets give the likelihood of the stated noise, beam, sky fraction and fields.',
     ['inputs', 'configurations'], 'all datasets, theory spectra, restrictions and nuisance parameters',
     'No test reads a .dataset file.',
     ['python/CMBlikes.py', 'python/makePerfectForecastDataset.py'],
     [('DatasetLikelihood, BinWindows, ClsArray', 'python/CMBlikes.py'), ('make_forecast_cmb_dataset', 'python/makePerfectForecastDataset.py')],
     'Hypothesis: generated datasets, and those in /repo/data, against an independent reading of the files and definition of the likelihoods',
     'Generated-input search; up to four maps, four bins, 16 multipoles; distributed datasets at full size.')

prop('C26', 'Supernova, CamSpec and DES likelihoods are those of the selected data',
     'The supernova likelihood is the gaussian of the corrected magnitudes with the covariance for the given alpha and beta, integrated over the free offsets (one, or one on each side of the cut), '
     'independent of earlier calls and of an overall distance scale; marginalization over alpha and beta is the sum over the stated grid. '
     'CamSpec chi-squared, coadded spectra, weights and differences are those of exactly the used spectra and multipoles with calibrations and foregrounds, whatever was saved by earlier runs. '
     'DES chi-squared uses exactly the measurements of the used types inside their angular cuts; its correlation functions are the Limber projections with bias, photo-z shifts, shear calibration and alignments; '
     'files converted from the released format describe the same data, and plots show them.',
     ['inputs', 'configurations', 'histories'], 'all data files, covariances, cuts, options and nuisance parameters',
     'No test imports these modules.',
     ['python/planck/SN.py', 'python/planck/CMB_CamSpec.py', 'python/planck/DES.py'],
     [('SN_likelihood', 'python/planck/SN.py'), ('CamSpec_likelihood', 'python/planck/CMB_CamSpec.py'), ('DES_like', 'python/planck/DES.py')],
     'Hypothesis: generated data files against independent references (direct gaussian integrals, least squares, fine-grid Limber sums)',
     'Generated-input search; camb and clik are absent: DES theory uses stand-in background and power functions, plik is not covered.')

prop('C27', 'Plots show the samples, parameters, limits and legends that were asked for',
     'Each curve of a plot is the marginalised density of the named parameter of the named samples (peak one, or unit area if asked), each contour lies at the contour levels of the two-dimensional density, '
     'each scatter point is a sample with weight coloured by its own third value, and every subplot of an array, triangle or rectangle has its own parameters, labels, markers and limits '
     '(enclosing the densities, inside hard priors) and legends name the colours drawn in the order asked. Nothing drawn depends on, or changes, earlier plots, settings, arguments or statistics of the samples. '
     'Ticks lie inside the axis, evenly spaced with distinct labels.',
     ['inputs', 'configurations', 'histories'], 'all sample sets, parameters, styles, layouts and sequences of plots',
     'The tests only run a few plots without looking at what is drawn.',
     [G + 'plots.py', G + 'matplotlib_ext.py'],
     [('GetDistPlotter', G + 'plots.py'), ('MCSampleAnalysis', G + 'plots.py'), ('BoundedMaxNLocator, SciFuncFormatter', G + 'matplotlib_ext.py')],
     'Hypothesis: the artists of generated figures against densities of separate copies of the samples, analytic gaussians and the requested styles',
     'Generated-input search; up to three sets of 300 rows, four parameters, figures are inspected rather than rendered.')
prop('C28', 'Plik foregrounds, theory spectra, latex and CAMB parameters are those of the run',
     'Adding foregrounds to plik runs inserts the foreground spectra of each sample and of the best fit, from its own parameters, in the same place of chains, names and best-fit file, once per run, leaving everything else as it was. '
     'The python plik likelihood gives the chi-squared of the calibrated, binned theory plus foregrounds for the selected bandpowers, and coadded spectra are the generalised least-squares solution. '
     'Dumped spectra are paired with their own parameters and drawn where they are; makeLatex states the requested constraints in order; smoothing is symmetric and keeps constants; CAMB gets the given cosmology or an error.',
     ['inputs', 'configurations', 'histories'], 'all runs, foreground components, data sets, masks, spectra and statistics files',
     'No test runs these scripts.',
     ['python/planck/plik_postprocess.py', 'python/planck/plikParams.py', 'python/planck/CMB_plik.py', 'python/planck/smoothing.py', 'python/chainDumpPlot.py', 'python/makeLatex.py', 'python/cosmomc_to_camb.py'],
     [('main_fgfile, main_fg2000', 'python/planck/plik_postprocess.py'), ('plik_likelihood', 'python/planck/CMB_plik.py'), ('loadFiles, rainbow plots', 'python/chainDumpPlot.py'),
      ('margeParamTex', 'python/makeLatex.py'), ('get_camb_params', 'python/cosmomc_to_camb.py')],
     'Hypothesis: the scripts on generated runs and data sets with stand-in clik and camb modules, against direct sums and linear algebra',
     'Generated-input search; up to six bandpower bins and six maps, runs of up to 12 parameters and three chains.')
prop('C29', 'Plot settings, names, legends, text and lookups mean what they say',
     'Figures, fonts and lines have the documented size for every layout, with font sizes growing steadily with the axes up to the maximum. '
     'Parameter names, patterns, renames and label files select the same parameters of each sample set in the order given; default legends show the labels of the samples; legend entries belong to their lines whatever offset, order or place is chosen; '
     'texts, lines and markers go to the named subplot, and points and their shadows are samples (or calculated from them). Analysis settings of plotter, chain folder and call apply in the stated order, start afresh on reset and are never changed for the caller.',
     ['inputs', 'configurations', 'histories'], 'all settings, layouts, names, renames, legends, placements and settings levels',
     'Tests make a few plots with default settings and do not look at the result.',
     [G + 'plots.py', G + 'paramnames.py', G + 'chain_grid.py'],
     [('GetDistPlotSettings', G + 'plots.py'), ('get_param_array, _check_param, add_legend, get_axes_for_params, plot_4d', G + 'plots.py'), ('MCSampleAnalysis.reset', G + 'plots.py')],
     'Hypothesis: generated plots inspected through matplotlib objects against a direct model of the options',
     'Generated-input search; up to three sets of 80 rows and six parameters; positions are checked for figure legends only.')
