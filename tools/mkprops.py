"""One-off generator kept for reference: writes properties.jsonl."""
import json
P = []
def add(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, title
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe or [], hook_needed=hook))
    if state:
        d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)
S = 'src/reor/'
SPG = [S+'archetypal_analysis.py', S+'gpnh_convex_coding.py', S+'gpnh_convex_coding_crom.py', S+'mtd_convex_coding.py']
FB = [S+'fembv.py', S+'fembv_kmeans.py', S+'fembv_varx.py']
OTH = [S+'crom.py', S+'pwvarx.py']
ALL = SPG + FB + OTH

add('C01', 'Seeded runs repeat exactly in any environment',
 'For every estimator, data set and option set, repeating the same sequence of calls with the same integer seed (or with a generator object in the same state) yields the same weights, parameters, cost, iteration count and forecasts. The behaviour of the wall clock, whether progress output is on, what other code draws from the process-wide random generator meanwhile, earlier work in the process and the hash seed of the interpreter have no influence.',
 ['schedules', 'inputs', 'configurations', 'histories'],
 'all estimators, options, data and seeds; all clock behaviours (frozen, backward, jumping), all interleaved uses of the global generator, verbosity levels, process histories and hash seeds',
 'The tests fix one seed and never run a fit twice, let alone under a different clock, verbosity, global generator state or process history.',
 ALL + [S+'_random_matrix.py'],
 [('check_random_state threads one generator through all initialisation', S+'*.py'), ('time.perf_counter is only used for progress output', '_iterate in every iterative estimator')],
 observe=['returned weights', 'fitted attributes', 'forecasts'])

add('C02', 'Only the declared random source is consumed',
 'When an integer seed or a generator object is supplied, no call reads or advances the process-wide random state, and a supplied generator is the only source: equal calls leave equal generators in equal states. When none is supplied the process-wide generator is the only source, so seeding it makes the calls reproducible.',
 ['inputs', 'histories', 'configurations'],
 'all estimators, initialisation methods, call sequences and ways of supplying randomness (integer, generator, none)',
 'No test looks at the state of any generator, and none runs without a seed.',
 ALL + [S+'_random_matrix.py'],
 [('random_state arguments', 'constructors'), ('check_random_state(random_state)', 'initialisers')],
 observe=['state of the supplied generator', 'state of numpy.random before and after'])

add('C03', 'Models used from different threads do not interfere',
 'For any interleaving of fits and queries on separate model objects in different threads, every call gives exactly the result (or error) it gives when its thread runs alone, even if the threads share input arrays and option dictionaries. Queries that do not refit anything on one shared fitted model - mapping weights back to data space, regime labelling, Markov cluster prediction and distances - may also run concurrently.',
 ['schedules'], 'all interleavings, at any instruction of the library, of calls in different threads',
 'The tests are single-threaded; an interleaving is never chosen.',
 ALL + [S+'spg.py', S+'simplex_projection.py', S+'furthest_sum.py'],
 [('all working state lives on the instance; no module-level mutable state', S+'*.py')],
 observe=['results of each thread'])

add('C04', 'A fit does not depend on the past of the object',
 'Fitting an object that was used before - for successful fits on other data of other sizes, queries, rejected calls, or calls aborted by an exception at an arbitrary instant - gives the same results and the same fitted attributes as fitting a newly built object with the same options and random state.',
 ['histories', 'crash_points'], 'all call histories, and every instant at which an earlier call on the object may be aborted',
 'Every test uses a fresh object for one fit; no test refits or aborts a call.',
 ALL, [('_initialize_workspace / _initialize reset the working state at the start of every fit', S+'*.py')],
 state=[('workspace', 'line-search memory, step lengths, cached products', '_initialize_workspace'), ('fitted attributes', 'dictionary_, Theta, mu, A, B0, B, order_weights, transition_matrices, ...', 'all estimators')],
 observe=['returned weights', 'fitted attributes'])

add('C05', 'Queries leave the fitted model unchanged',
 'Transforming, predicting and reconstructing - whether the call completes, fails, or is aborted at an arbitrary instant, and in whatever order and number - leave the fitted parameters (dictionary, centroids, regression coefficients, transition model, cost, iteration count) exactly as the last successful fit produced them. The answer to every query depends only on that fit, the arguments of the query and the random state.',
 ['histories', 'crash_points'], 'all sequences of queries after a fit, and every instant at which a query may be aborted',
 'One test calls transform and predict once on a hand-assembled model; no test queries after another query, after an abort, or re-examines fitted attributes.',
 ALL, [('transform re-enters the fitting routine with the fitted dictionary and update_dictionary=False', S+'*.py')],
 observe=['fitted attributes', 'query results'])

add('C06', "Caller's data is never modified and results never change later",
 'No call, whether it completes, fails or is aborted midway, changes any array, list or dictionary the caller passed in. Arrays returned by a completed call or read from the fitted attributes keep their values through all later calls on the object, and changes the caller later makes to its own input arrays do not alter the behaviour of the fitted model.',
 ['histories', 'crash_points', 'inputs'], 'all argument kinds of all estimators, all later call sequences, all abort instants',
 'No test compares inputs before and after a call or keeps results across calls.',
 ALL, [('.copy() of data, weights, dictionary and parameters on entry', '_kernel_aa, _gpnh_convex_coding, _mtd_convex_coding, _initialize_weights, _initialize_components')],
 observe=['argument objects', 'previously returned arrays'])

add('C07', 'Weights and stochastic parameters are always feasible',
 'Every weights matrix a fit or query returns has non-negative rows that sum to one; every row of archetype coefficients and every lag-weight vector is non-negative and sums to one; every fitted transition matrix has non-negative columns that sum to one. This holds after any history of warm starts, stops at any iteration count, aborted calls and choice of solver.',
 ['inputs', 'histories', 'crash_points', 'configurations'], 'all data, options, iteration budgets, warm starts, histories and solvers',
 'The tests check row sums on a handful of fixed examples; several assertions compare with allclose(x, 1, rtol) on single seeds, and none covers FEM-BV fits, the CROM classes, resumption or aborted calls.',
 SPG + FB + OTH + [S+'simplex_projection.py', S+'_random_matrix.py'],
 [('simplex projection of every trial step and convex line search', '_update_weights, _update_dictionary, _update_parameters'), ('equality and bound constraints of the linear programme', S+'fembv.py _initialize_constraints')],
 observe=['returned weights', 'dictionary_', 'order_weights', 'transition_matrices', 'Gamma', 'transition_matrix_'])

add('C08', 'Cost never rises while fitting, nor across stop and resume',
 'With monotone line search (the default) the cost of a fit never rises from one iteration to the next beyond rounding or solver accuracy, however many iterations are allowed. It does not rise either when a fit is stopped or aborted at any point and resumed, in the same or in a new process, from the weights and parameters saved at its last completed segment.',
 ['histories', 'crash_points', 'inputs'], 'all data, starting points and options, all splits of a fit into segments, every abort instant',
 'Tests follow single update steps for a few fixed seeds; no test runs a fit with different budgets or resumes one.',
 SPG + FB + [S+'spg.py'],
 [('line search with sufficient-decrease test', '*_line_search'), ('cost checked after each update', '_iterate')],
 observe=['cost_', 'objective recomputed from returned weights and parameters'])

add('C09', 'Cost, iteration count and convergence warning tell the truth',
 'The cost a completed iterative fit reports equals the objective of the model evaluated at the weights and parameters it returns, and the iteration count it reports is the number of iterations it performed, between 1 and the maximum. Every fit stops within the maximum with bounded work per iteration; a fit that used its whole budget warns that the maximum was reached, while one that stopped earlier does not warn and its last iteration changed the cost by less than the tolerance.',
 ['inputs', 'configurations', 'histories'], 'all data, options, tolerances and budgets of the iterative estimators',
 'Tests only assert n_iter_ < max_iter; the reported cost is never compared with the objective and the warning is never exercised.',
 SPG + FB, [('_iterate stopping rule, return value and warning', '_iterate / _kernel_aa / _gpnh_convex_coding / _mtd_convex_coding / _fembv_fit')],
 observe=['cost_', 'n_iter_', 'UserWarning'])

add('C10', 'FEM-BV fits survive failures of the weights solver',
 'If a weights solve ends without an optimal solution (infeasible, unbounded, undecided, out of iterations, with or without values), the fit warns, keeps the weights it had and carries on; if the solver raises, that error reaches the caller. Neither case ever yields missing, non-finite or infeasible weights or an unrelated internal error, and once the solver works again the fit ends with optimal weights.',
 ['fault_sequences', 'inputs'], 'all sequences of solver outcomes over the iterations of a fit, for both FEM-BV models with and without a total-variation bound',
 'The tests never run a solve that fails - indeed never run a FEM-BV fit.',
 FB, [('status test after problem.solve', S+'fembv.py _update_weights')],
 observe=['Gamma', 'warnings', 'exceptions'])

add('C11', 'FEM-BV weights obey the variation bound and are optimal',
 'After a FEM-BV fit or transform the total variation of each component weight sequence is at most the requested bound (no bound if none was given), and no weights satisfying the constraints have a lower cost for the fitted component parameters; without a bound every sample is therefore assigned to a closest component. This holds for every correct linear-programming solver and every choice it makes among equally good or almost optimal solutions.',
 ['inputs', 'schedules', 'configurations'], 'all data, bounds, component counts, solvers, and solver choices among (near-)optimal solutions',
 'Tests compare the constraint matrices with expected matrices for one shape; no linear programme is ever solved.',
 FB, [('constraint matrices', S+'fembv.py _initialize_constraints'), ('linear programme', S+'fembv.py _update_weights')],
 observe=['Gamma', 'cost_', 'Theta', 'mu', 'A', 'B0'])

add('C12', 'Saved or copied models behave identically',
 'A model that is pickled or deep-copied at any point of its life and restored, after the original was lost, continued with other calls or crashed in the middle of one, answers every later fit and query exactly as the original would have at the time of the copy. Work on a copy never affects the original and vice versa.',
 ['histories', 'crash_points'], 'all points of a call history at which a model is saved, all crash instants after it, all continuations',
 'No test pickles or copies a model, although the shipped examples keep the best of several fits by deep copy.',
 ALL, [('all state is plain instance attributes', S+'*.py')],
 observe=['results of original and copy'])

add('C13', 'Markov cluster model is a consistent Markov chain',
 'For every sequence of visited clusters, including clusters that are never left, the fitted transition matrix is column-stochastic and holds the empirical transition frequencies of the fitted labels; labels, centres, inertia and transition matrix always belong to one clustering, whichever fit variants were called and in whatever order. A prediction is a probability distribution per sample: the indicator of the nearest centre at horizon zero, and the transition matrix applied h times to it at horizon h.',
 ['histories', 'inputs', 'configurations'], 'all label histories, call sequences, horizons and randomness of the clustering',
 'The module has no tests.',
 [S+'crom.py'], [('counting of label pairs', S+'crom.py kmeans_markov_crom'), ('repeated multiplication', 'KMeansMarkovCROM.predict')],
 observe=['transition_matrix_', 'labels_', 'cluster_centers_', 'predict'])

add('C14', 'Forecasts follow the fitted transition model',
 'For the convex-coding models with transition dynamics, the forecast at horizon h from sample t is the data-space image of the fitted lag-weighted transition recursion applied h times to the weights that transforming the same data gives, and horizon zero is the plain reconstruction. Samples with too little history, and only those, are marked not-a-number; every other forecast is a convex combination of the dictionary rows. This holds after any history of fits, queries and aborted calls, and whatever other models do.',
 ['histories', 'inputs', 'crash_points'], 'all lag sets, horizons, data and call histories',
 'One test checks horizon 1 of one hand-assembled model; the CROM variant, longer horizons and fitted models are not tested.',
 [S+'gpnh_convex_coding_crom.py', S+'mtd_convex_coding.py'], [('predict_next_step_weights recursion', 'predict')],
 observe=['predict', 'transform', 'order_weights', 'transition_matrices', 'dictionary_'])

add('C15', 'Piecewise models match the regimes their classifier assigns',
 'Whatever labels the clustering and classification components produce, a fitted piecewise regression holds, for each regime, the least-squares coefficients, residuals and residual covariance of exactly the samples labelled with that regime; the returned labels are those the classifier assigns, one per sample after the initial lags, and labelling the same series again returns them again. A component that fails makes the call fail with its error and leaves the object usable.',
 ['fault_sequences', 'inputs', 'histories'], 'all behaviours of the pluggable clusterer and classifier including failures, all lag orders, shapes and call histories',
 'The module has no tests.',
 [S+'pwvarx.py'], [('design matrix of lags', '_stack_predictors'), ('masked least squares', '_fit_var_model')],
 observe=['mu', 'A', 'B', 'Sigma_u', 'residuals', 'labels'])

add('C16', 'Errors and interrupts always reach the caller',
 'An interrupt, memory failure or other error that strikes at an arbitrary instant of a call, or is raised by something the call uses (progress output, kernel function, clusterer, classifier, linear-programming solver, numerical routine), ends the call with that same error; no call ever completes normally with a result that a fault has altered. After the fault is gone the same call succeeds with the result it gives without faults.',
 ['crash_points', 'fault_sequences'], 'every instant of every call, every environment component that can fail, all fault kinds',
 'No test injects any fault.',
 ALL, [('no blanket exception handlers', S+'*.py')],
 observe=['exception seen by the caller', 'result of the retried call'])

add('C17', 'Factorisations converge to stationary points',
 'A factorisation or transform given a small tolerance and an ample iteration budget - started afresh, resumed from any checkpoint, or repeated after an aborted attempt - ends at a point where no small feasible change of weights, dictionary or transition model lowers its cost appreciably. It lowers the cost unless it started at such a point.',
 ['inputs', 'histories', 'crash_points'], 'all well-scaled data, options, starting points and abort/resume histories',
 'Tests assert decrease of the code\'s own cost along the code\'s own gradient; they do not check where a complete fit ends.',
 SPG + [S+'spg.py', S+'simplex_projection.py'],
 [('spectral projected gradient steps with safeguarded line search', '_update_* and *_line_search'), ('analytic gradients', '_update_*_gradient')],
 observe=['cost_', 'projected gradient of an independent objective'])

add('C18', 'FEM-BV parameters are optimal for the weights in force',
 'After every parameter update of a FEM-BV fit the cluster centres are the weighted means, respectively the regression coefficients (with per-component memory and external factors) are the weighted least-squares solution, for the weights then in force - initial, custom, solved or kept after a failed solve - with components that hold no weight left finite. The fitted attributes are those parameters.',
 ['inputs', 'histories', 'fault_sequences', 'configurations'], 'all data, memories, external factors, starting weights, and solver outcomes including components that lose all weight',
 'One test fits one unweighted regression; weighted fits, several components, unequal memory, external factors and empty components are untested.',
 [S+'fembv_kmeans.py', S+'fembv_varx.py', S+'fembv.py'],
 [('weighted means', 'FEMBVKMeans._update_parameters'), ('weighted least squares', 'FEMBVVARXLocalLinearModel.fit')],
 observe=['Theta', 'mu', 'A', 'B0', 'Gamma'])

add('C19', 'Simplex projection is the exact Euclidean projection',
 'Projecting any finite vector, or each row or column of a matrix, onto the probability simplex returns the unique closest point of the simplex.',
 ['inputs'], 'all finite vectors and matrices', 'Tests sample a few vectors and mostly check membership, not optimality.',
 [S+'simplex_projection.py'], [('sort-based threshold', 'simplex_project_vector')])
add('C20', 'Furthest-sum selection returns valid, distinct, far points',
 'For any dissimilarity matrix the selection returns the requested number of distinct indices, none of them excluded, and each greedily maximises the summed dissimilarity to the points already selected.',
 ['inputs'], 'all dissimilarity matrices, start points and exclusion lists', 'Tests use a few small matrices.',
 [S+'furthest_sum.py'], [('greedy selection with extra exchange steps', '_furthest_sum_impl')])
add('C21', 'Analytic gradients equal the derivatives of the cost',
 'For all data, factors and regularisation parameters the gradients used by the factorisations are the derivatives of their cost functions.',
 ['inputs'], 'all data, factors and regularisation parameters', 'Tests compare with finite differences at single random points.',
 SPG, [('gradient expressions', '_update_*_gradient')])
add('C22', 'Malformed arguments are rejected with a clear error',
 'Wrong shapes, non-stochastic initial weights, non-positive component counts, budgets or lags and unknown initialisation methods raise ValueError before any result is produced.',
 ['inputs'], 'all malformed argument combinations', 'Only furthest-sum argument errors are tested.',
 ALL + [S+'_validation.py'], [('validation helpers', S+'_validation.py')])
add('C23', 'Kernel and data forms of archetypal analysis agree',
 'Archetypal analysis of a data matrix gives the same result as kernel archetypal analysis of its Gram matrix (or of the matrix the supplied kernel function returns) with the same options and seed.',
 ['inputs'], 'all data, kernels and options', 'No test uses the data form.',
 [S+'archetypal_analysis.py'], [('kernel computation', 'ArchetypalAnalysis.fit_transform')])
add('C24', 'Random stochastic matrices are stochastic',
 'Generated random matrices of any shape have non-negative entries and unit sums along the stated axis.',
 ['inputs'], 'all shapes and seeds', 'Only used as fixtures.',
 [S+'_random_matrix.py'], [('normalisation', '_uniform_stochastic_matrix')])

add('C25', 'Calls leave nothing behind in the process',
 'Whether it completes, fails or is aborted at an arbitrary instant, a call leaves every process-wide setting (warning filters, floating-point error handling, print options, standard streams, environment, working directory, handlers, threads, open files, functions of other libraries) as it found it, and touches no files, processes or network. Repeating calls any number of times, with faults or without, on data of equal or varying size, does not make the memory held by the model and the library grow.',
 ['crash_points', 'fault_sequences', 'histories'], 'every call, abort instant, failing component and length of history',
 'No test looks at the process after a call, aborts one, or repeats calls on one object.',
 ALL, [('no process-wide settings are changed', S+'*.py'), ('workspaces are replaced by every fit', '_initialize_workspace')],
 observe=['process-wide settings', 'audit events', 'memory reachable from model and modules'])

add('C26', 'Progress output reports the run that happens',
 'With progress output on, a fit or transform reports each iteration once, in order and while it runs, with the cost the model then has (that of the same fit stopped there), the change of the cost, and a duration that is non-negative and within the time that passed on the monotonic clock however the time of day jumps; convergence is announced exactly when the last change is below the tolerance. A call that is aborted has written what the undisturbed call writes up to that instant. With progress output off nothing is written.',
 ['schedules', 'crash_points', 'histories', 'inputs'], 'all iterative models, data, budgets, tolerances, clocks, abort instants and earlier calls',
 'No test turns progress output on or looks at what is written.',
 [S+'archetypal_analysis.py', S+'gpnh_convex_coding.py', S+'gpnh_convex_coding_crom.py', S+'mtd_convex_coding.py', S+'fembv.py'],
 [('progress lines', '_iterate'), ('parameter fit progress', 'GPNHConvexCodingCROM._fit_parameters')],
 observe=['standard output', 'cost_', 'clock'])

with open('properties.jsonl', 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P))
