"""The properties, in one place. tools/gen.py writes properties.jsonl and MANIFEST.json from it."""
P = []
NA = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None, level='exploration', technique='', note=''):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, state=state,
                  observe=observe, hook=hook, level=level, technique=technique, note=note))


def na(id, title, statement, over, qtext, why, files, mech, reason):
    NA.append((id, reason))
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, state=(),
                  observe=(), hook=None, level=None))


SIMOMP = 'deterministic simulation: seeded preemptive scheduler under the OpenMP team, compared with a reference model'

prop('C01', 'Estimation totals do not depend on thread scheduling',
     'For any choice model (multinomial or nested, with or without size terms), data, parameter values, number of threads and interleaving of '
     'those threads, the compiled engine returns the log likelihood, its gradient, the BHHH matrix and the logsums that the model\'s definition '
     'gives for that data. Weights, several or partial choices in a case, unavailable alternatives, parameters shared between terms or nests, '
     'and parameters held fixed are all honoured.',
     ['schedules', 'configurations', 'inputs'],
     'every schedule of every team size over every model, data set and parameter vector',
     'tests evaluate a handful of fixed models on one real thread schedule, mostly with data large enough for races to be invisible',
     ['larch/model/mnl.pyx', 'larch/model/nl.pyx', 'larch/model/controller.pyx', 'larch/dataframes.pyx', 'larch/linalg'],
     [('per-thread scratch rows indexed by thread number and reductions over threads', 'larch/model/mnl.pyx: mnl_d_log_likelihood_from_dataframes_all_rows'),
      ('the same for nested models', 'larch/model/nl.pyx: nl_d_log_likelihood_from_dataframes_all_rows'),
      ('utility of one case from the linked model structure', 'larch/dataframes.pyx: _compute_d_utility_onecase')],
     observe=['Model.loglike', 'Model.loglike2', 'Model.loglike2_bhhh', 'Model.d_loglike', 'Model.bhhh', 'Model.logsums'],
     technique=SIMOMP,
     note='seeded search over schedules at memory-access granularity, team sizes, loop divisions, models and data; sequentially consistent memory')

prop('C02', 'Case-by-case outputs belong to their case and alternative',
     'Probabilities, utilities, logsums, and the log likelihood, gradient and probability derivatives reported case by case each hold, in the row and column (or under '
     'the label) of a case and alternative, the value of that case and alternative, whatever the number of threads and their interleaving. '
     'Unavailable alternatives have probability zero and every case with an available alternative has probabilities adding to one.',
     ['schedules', 'configurations', 'inputs'],
     'every schedule, team size, model, data set, slice of cases and output format',
     'tests look at a few leading rows of a few outputs on one schedule',
     ['larch/model/mnl.pyx', 'larch/model/nl.pyx', 'larch/model/controller.pyx'],
     [('storage rows chosen per case when a piece is kept, per thread otherwise', 'larch/model/mnl.pyx, nl.pyx: store_number_*'),
      ('labelling of probability tables', 'larch/model/controller.pyx: probability')],
     observe=['Model.probability', 'Model.utility', 'Model.logsums', 'Model.d_probability', 'persisted pieces of loglike2'],
     technique=SIMOMP,
     note='seeded search; every row of every output compared with the reference model')

prop('C03', 'A part of the sample means exactly its cases, and parts add up',
     'Evaluating with a start, stop and step, or leaving out or keeping only one fold, uses exactly the cases so selected: log likelihood, gradient and '
     'BHHH over the parts of any partition add up to those of the whole sample. The selected part is evaluated the same on any thread schedule, and '
     'evaluating a part does not change what the whole evaluates to afterwards.',
     ['schedules', 'inputs', 'histories'],
     'every selection of cases, partition, schedule and sequence of evaluations',
     'no test evaluates a slice with a step or a fold and compares it with anything',
     ['larch/model/controller.pyx', 'larch/model/mnl.pyx', 'larch/model/nl.pyx'],
     [('loop bounds, step and fold tests in the parallel loop', 'larch/model/mnl.pyx, nl.pyx: prange loops'),
      ('resolution of the slice', 'larch/model/controller.pyx: __d_log_likelihood_from_dataframes_all_rows')],
     observe=['Model.loglike', 'Model.loglike2', 'Model.loglike2_bhhh', 'Model.d_loglike'],
     technique=SIMOMP,
     note='seeded search over selections, partitions and schedules; parts summed and compared with the whole and with the reference model')

prop('C04', 'The numba engine computes the same model however work is divided',
     'For any model, data, parameter values and selection of cases, the numba engine returns the log likelihood, gradient, BHHH, probabilities, utilities, logsums '
     'and case-by-case pieces that the model\'s definition gives. The result does not depend on how the cases are divided among workers, the order in which '
     'the divisions run, or what was evaluated before.',
     ['schedules', 'configurations', 'inputs', 'histories'],
     'every division and order of the work, model, data set, parameter vector, selection and preceding evaluations',
     'tests compare the two engines on a few fixed models with the default threading layer',
     ['larch/numba/model.py', 'larch/numba/cascading.py', 'larch/numba/data_arrays.py'],
     [('generalised ufunc over cases with reused output arrays', 'larch/numba/model.py: _numba_master, _loglike_runner')],
     state=[('work arrays', 'output buffers kept between evaluations', 'larch/numba/model.py: WorkArrays')],
     observe=['numba Model.loglike, loglike2, loglike2_bhhh, d_loglike, bhhh, probability, utility, logsums, *_casewise'],
     technique='deterministic simulation: seeded division and ordering of the numba work pool, compared with a reference model',
     note='seeded search; chunks run to completion one at a time in seeded order, on seeded workers, with seeded sizes')

prop('C05', 'Results are values: later evaluations never alter earlier results',
     'What an evaluation returned stays as it was returned, no matter what is evaluated on the model afterwards, in either engine. '
     'Each evaluation in any sequence returns what the same evaluation on a freshly built model would.',
     ['histories', 'schedules', 'inputs'],
     'every sequence of evaluations (kind, parameters, selection, kept pieces) in either engine',
     'tests use a result at once and never keep two results side by side',
     ['larch/numba/model.py', 'larch/model/controller.pyx', 'larch/model/mnl.pyx', 'larch/model/nl.pyx'],
     [('reuse of working arrays between evaluations', 'larch/numba/model.py: _rebuild_work_arrays, _loglike_runner'),
      ('fresh arrays per evaluation', 'larch/model/mnl.pyx, nl.pyx')],
     state=[('work arrays', 'output buffers kept between evaluations', 'larch/numba/model.py: WorkArrays')],
     observe=['every returned array, series, table and dictionary'],
     technique='deterministic simulation: seeded histories of evaluations under seeded schedules, every earlier result re-examined after every call',
     note='seeded search over histories; earlier results are compared bit for bit after each later call')

prop('C06', 'Any history of edits evaluates like a freshly built model',
     'After any sequence of changes to a model (utility terms, size terms, nests, parameter values and holds, data, threads) and evaluations in between, '
     'an evaluation returns what a freshly built model of the same structure, data and values would, in either engine. '
     'An evaluation that fails because of a wrong term, wrong data or wrong values does no harm once the mistake is repaired.',
     ['histories', 'configurations', 'inputs'],
     'every sequence of edits, failing evaluations and successful evaluations',
     'tests build a model, evaluate it and throw it away; they almost never edit a model after evaluating it',
     ['larch/model/controller.pyx', 'larch/model/abstract_model.pyx', 'larch/model/parameter_frame.pyx', 'larch/model/linear.pyx', 'larch/model/tree.py', 'larch/dataframes.pyx', 'larch/numba/model.py'],
     [('marking the compiled structure stale on edits', 'larch/model/linear.pyx: _try_mangle; larch/model/tree.py: touch; parameter_frame.pyx: mangle/unmangle'),
      ('relinking the data to the model', 'larch/dataframes.pyx: _link_to_model_structure; larch/numba/model.py: _rebuild_data_arrays')],
     state=[('compiled structure', 'index arrays that link parameters, data columns and nests', 'larch/dataframes.pyx: DataFrames._link_to_model_structure')],
     observe=['Model.loglike, loglike2, loglike2_bhhh, d_loglike, probability, utility, logsums, parameter values'],
     technique='deterministic simulation: seeded histories of edits and failing evaluations under seeded schedules, compared with a reference model rebuilt from scratch',
     note='seeded search over histories')

prop('C07', 'The best log likelihood on record is one the model really attains',
     'Through any history of evaluations, edits, failures and estimations, the best log likelihood on record, if there is one, is that of the recorded best parameters under the current '
     'structure and data for all cases, and no evaluation of all cases since the last change gave a better one. Evaluations of part of the cases, and failed evaluations, do not enter the record.',
     ['histories', 'schedules', 'inputs'],
     'every sequence of whole and partial evaluations, edits, failures and estimations',
     'tests look at the result of one estimation, never at the record after partial evaluations or edits',
     ['larch/model/abstract_model.pyx', 'larch/model/controller.pyx', 'larch/numba/model.py'],
     [('record of the best point', 'larch/model/abstract_model.pyx: _check_if_best, clear_best_loglike; controller.pyx, numba/model.py: loglike*')],
     state=[('best value and parameters', 'the best log likelihood and the parameters that gave it', 'larch/model/abstract_model.pyx: _cached_loglike_best, pf[best]')],
     observe=["Model.loglike_best value and Model.pf['best'] column"],
     technique='deterministic simulation: seeded histories of evaluations, edits and failing calls under seeded schedules, the record checked against a reference model after every step',
     note='seeded search over histories; invariant checked after every step')

prop('C08', 'Estimation reports what it reached, and an interrupted one leaves a usable model',
     'Whatever the method, the reported log likelihood is that of the reported parameters, the model holds those parameters, held parameters keep their values, bounds are respected by methods that support them, and success is '
     'not reported where an easy improvement exists. If an evaluation, a progress display or the user interrupts an estimation at any point, the error reaches the caller, the model evaluates what it holds, no result is recorded, '
     'and estimating again reaches what an undisturbed estimation reaches.',
     ['fault_sequences', 'histories', 'schedules', 'inputs'],
     'every method, start, model, data set, schedule and point of interruption',
     'tests run a few methods to the end on fixed models; none interrupts an estimation',
     ['larch/model/optimization.py', 'larch/model/abstract_model.pyx', 'larch/numba/optimization.py', 'larch/numba/model.py', 'larch/model/controller.pyx'],
     [('the estimation loops', 'larch/model/optimization.py: maximize_loglike; abstract_model.pyx: simple_fit_bhhh, jumpstart_bhhh; numba/optimization.py: fit_bhhh'),
      ('restoring values and penalty settings', 'larch/model/optimization.py: finally clause')],
     state=[('most recent result', 'the estimation result kept by the model', 'larch/model/abstract_model.pyx: _most_recent_estimation_result')],
     observe=['the result of Model.maximize_loglike', 'Model.pf', 'Model.loglike and gradient afterwards', 'Model.most_recent_estimation_result'],
     technique='deterministic simulation: seeded interruption of estimations (errors and user interrupts before or after any evaluation, at any line of the numba estimation code, in the progress display) under seeded schedules',
     note='seeded search over interruption points; progress: estimating again reaches the same optimum')

prop('C09', 'Analyses give the right figures and leave the model as it was',
     'Null, nil and constants-only log likelihoods, rho squares, likelihood ratios, second derivatives, parameter covariances and summaries give the figures the current model, data and values imply, in any order and after any edits. '
     'None of them changes the parameter values, holds, bounds or what the model evaluates to, even when an analysis is interrupted part way.',
     ['histories', 'fault_sequences', 'inputs'],
     'every sequence of analyses and edits and every point of interruption',
     'tests compute a statistic once on a fitted model; they do not look at the model afterwards, and never interrupt an analysis',
     ['larch/model/abstract_model.pyx', 'larch/model/controller.pyx', 'larch/dataframes.pyx', 'larch/numba/model.py', 'larch/math/optimize.py'],
     [('temporary moves of the parameters', 'larch/model/abstract_model.pyx: loglike_null, loglike3, likelihood_ratio, calculate_parameter_covariance'),
      ('temporary models on the same data', 'larch/model/abstract_model.pyx: loglike_nil, loglike_constants_only')],
     state=[('reference log likelihoods', 'cached null, nil and constants-only values', 'larch/model/abstract_model.pyx: _cached_loglike_*')],
     observe=['the returned figures', 'Model.pf before and after', 'Model.loglike before and after', 'covariance matrices and standard errors'],
     technique='deterministic simulation: seeded sequences of analyses and edits, with errors and user interrupts injected before or after any evaluation inside an analysis',
     note='seeded search over histories and interruption points; figures compared with a reference model')

SIMFS = 'deterministic simulation with fault injection: system calls on the scratch files fail, come up short or end the process at a seeded point'

prop('C10', 'Copies and saved models are complete and independent',
     'A copy of a model, a pickled and restored one, one saved to and read back from a file, and one built from another, evaluates to the same values as the original once it has the same data, and has its parameters, bounds, holds, nests, constraints and title. '
     'Later changes of either one never affect the other, in any order of changes, copies and evaluations. A save that is interrupted raises an error or leaves a file that restores correctly or is refused.',
     ['histories', 'fault_sequences', 'inputs'],
     'every model, every history of edits before and after copying, every way of copying, every point of interruption of a save',
     'tests pickle one simple model once and compare one number',
     ['larch/model/controller.pyx', 'larch/model/abstract_model.pyx', 'larch/model/parameter_frame.pyx', 'larch/model/tree.py', 'larch/numba/model.py', 'larch/model/constraints.py'],
     [('state handed to and taken from pickle', 'larch/model/controller.pyx, larch/numba/model.py: __getstate__, __setstate__'),
      ('copies', 'larch/model/controller.pyx: copy; larch/numba/model.py: copy'),
      ('reading and writing a file', 'larch/model/controller.pyx: save, load')],
     state=[('the whole state of a model', 'parameter frame, functions, nesting tree, constraints, options', 'larch/model/controller.pyx')],
     observe=['Model.copy, copy.deepcopy, pickle, save and load', 'evaluations of both models'],
     technique='deterministic simulation: seeded histories of edits, copies and evaluations compared with a reference model; file system faults while saving',
     note='seeded search over histories; file errors and crashes injected at system calls while saving')

prop('C11', 'Constraints and bounds apply to the parameters they name',
     'The constraint functions and gradients used in estimation give, for every constraint, the value and gradient of what it says about the parameters it names at the values given, after any history of edits, copies and rejected constraints. '
     'Constrained estimation ends inside constraints and bounds up to the optimiser\'s tolerance, and reported binding constraints are those that bind.',
     ['histories', 'inputs', 'configurations'],
     'every set of constraints, every history of changes of the parameters and every vector of values',
     'tests estimate one or two fixed models with one constraint set before anything else changes',
     ['larch/model/constraints.py', 'larch/model/optimization.py', 'larch/model/parameter_frame.pyx', 'larch/numba/model.py'],
     [('links between constraints and positions of parameters', 'larch/model/constraints.py: link_model, ParametricConstraintList'),
      ('translation for the optimisers', 'larch/model/constraints.py: as_constraint_dicts, as_soft_penalty, as_linear_constraints')],
     state=[('linked positions', 'position of each named parameter', 'larch/model/constraints.py')],
     observe=['constraint function values and gradients', 'Model.constraints', 'estimation results', 'binding reports'],
     technique='deterministic simulation: seeded histories of edits, constraints, copies and estimations on the simulated engines compared with a plain model of each constraint',
     note='seeded search over histories')

prop('C12', 'A saved data collection loads as what was saved or not at all',
     'Data saved to a collection of files and loaded again is equal in every table, label, weight scale and alternative. When saving fails or is cut short at any point, loading afterwards gives exactly the previous or exactly the new data, or is refused: never a mixture, never silently less. '
     'A failing or short read raises an error or gives the complete data.',
     ['fault_sequences', 'crash_points', 'histories'],
     'every data set, every sequence of saves and loads, and every disk error, short transfer or crash at any system call',
     'no test saves twice to one place or interrupts anything',
     ['larch/dataframes.pyx'],
     [('writing one file per table, with what describes the collection', 'larch/dataframes.pyx: to_feathers'),
      ('reading a collection', 'larch/dataframes.pyx: from_feathers, inject_feathers')],
     state=[('the files of a collection', 'one per table, and a description', 'larch/dataframes.pyx')],
     observe=['DataFrames.to_feathers, from_feathers, inject_feathers', 'files on disk'],
     technique=SIMFS,
     note='seeded search over histories and fault points; death of the process keeps what was written (no power loss)')

prop('C13', 'Compressing and archiving directories never loses or damages data',
     'Compressing files of a folder, zipping folders and verifying checksums produce archives with exactly the contents of the files selected. When such a run fails or is cut short at any point the originals are still there or their complete archive is, nothing incomplete looks complete, and running again completes the work.',
     ['fault_sequences', 'crash_points', 'histories'],
     'every tree of files, every option, and every disk error, short transfer or crash at any system call',
     'no test interrupts a run or repeats one',
     ['larch/util/zipdir.py'],
     [('compress to a new file, then remove the original', 'larch/util/zipdir.py: gzip_dir'),
      ('archives written beside and moved into place', 'larch/util/zipdir.py: zipdir, zipmod, Archiver'),
      ('checksums', 'larch/util/zipdir.py: make_hash_file, verify_hash_file')],
     observe=['files on disk before and after', 'contents of archives', 'returned verdicts on checksums'],
     technique=SIMFS,
     note='seeded search over trees, options and fault points; sleeping and dates on a simulated clock')

prop('C14', 'A cached classifier is complete or retrained; predictions stay with their row',
     'A pre-trained classifier restored from its cache predicts the same as the one trained; a cache that a failure or crash left incomplete is never used and never stops a later start. '
     'Predictions added to data belong to the case and alternative of their row, for any layout, order, availability and weights of the data.',
     ['fault_sequences', 'crash_points', 'inputs'],
     'every data layout and row order, and every disk error or crash while the cache is written or read',
     'no test interrupts the training or shuffles rows',
     ['larch/prelearning.py', 'larch/dataframes.pyx'],
     [('cache of the fitted classifier', 'larch/prelearning.py: Prelearner.__init__'),
      ('predictions put into the tables', 'larch/prelearning.py: apply, predict_proba'),
      ('tables of rows for training', 'larch/dataframes.pyx: array_ch_as_ce, array_wt_as_ce, data_av_as_ce')],
     state=[('the cache file', 'the fitted classifier', 'larch/prelearning.py')],
     observe=['Prelearner(...), apply, predictions', 'the cache file', 'later starts'],
     technique=SIMFS,
     note='seeded search over data layouts, histories and fault points')

prop('C15', 'A matrix file holds what was put into it',
     'Whatever is put into a matrix file - matrices, lookups, indexes, imported tables and other matrix files - is read back as put, under its name, with its shape, order and labels, after any sequence of sessions, changes, imports and refused operations. '
     'An operation that is refused or fails, also because a read fails, leaves everything else in the file as it was.',
     ['histories', 'fault_sequences', 'inputs'],
     'every sequence of sessions and operations, every shape and type, every failing read',
     'tests write and read a few matrices in one session',
     ['larch/omx.py', 'larch/util/smartread.py'],
     [('matrices and lookups as arrays of a file', 'larch/omx.py: add_matrix, add_lookup, shape, crop'),
      ('imports in chunks', 'larch/omx.py: import_datatable, import_datatable_3d, import_datatable_as_lookups, import_omx'),
      ('indexes and labels', 'larch/omx.py: lookup_to_index, get_rc_dataframe, get_dataframe, rlookup')],
     state=[('the file', 'matrices, lookups and shape', 'larch/omx.py')],
     observe=['OMX in all its access paths', 'the file reopened in another session'],
     technique='deterministic simulation: seeded histories of sessions and operations compared with a plain model; reads of imported tables fail at seeded points',
     note='seeded search over histories; no disk faults on the matrix file itself, because the HDF5 library drops such errors')

prop('C16', 'A latent class model is the mixture of its classes',
     'Log likelihood, gradient, BHHH matrix, probabilities and their derivatives, and class membership of a latent class model are those of the mixture of its classes for the current data, weights and parameter values. '
     'This holds for any part of the cases, after any history of value changes, holds, edits of the classes, new data and estimations, and on any thread schedule.',
     ['histories', 'inputs', 'schedules'],
     'every set of classes and parameters shared between them, every data set and history',
     'three tests evaluate one unweighted model at one point, mostly through one path',
     ['larch/model/latentclass.py', 'larch/model/nl.pyx', 'larch/model/mnl.pyx', 'larch/model/parameter_frame.pyx'],
     [('mixture of probabilities and derivatives', 'larch/model/latentclass.py: probability, d_probability, loglike2'),
      ('log likelihood, gradient and BHHH from probabilities', 'larch/model/nl.pyx: d_loglike_from_d_probability; larch/model/mnl.pyx: loglike_from_probability'),
      ('one parameter frame for all classes', 'larch/model/latentclass.py: sync_frames, unmangle')],
     state=[('parameter frame', 'shared by the classes, class membership and the whole', 'larch/model/latentclass.py')],
     observe=['loglike, loglike2, loglike2_bhhh, probability, d_probability, class_membership_probability of the latent class model', 'its estimation'],
     technique=SIMOMP,
     note='seeded search over histories and schedules; values compared with an independent mixture in plain numpy')

prop('C17', 'A group of models is the sum of its members with common parameters',
     'Log likelihood, its parts, gradient and estimation of a group of models are those of its members added up at the group\'s parameter values, held parameters included, for members of any engine with data, weights and alternatives of their own. '
     'This holds after any history of value changes, holds, edits and new data of members, and members joining, leaving or being replaced; the best log likelihood on record belongs to the current group.',
     ['histories', 'inputs', 'schedules'],
     'every set of members and parameters shared between them, every data set and history',
     'one test groups two fixed models that never change',
     ['larch/model/model_group.py', 'larch/model/parameter_frame.pyx', 'larch/model/abstract_model.pyx'],
     [('values and holds passed on to the members', 'larch/model/model_group.py: _frame_values_have_changed, __prep_for_compute'),
      ('sums over members', 'larch/model/model_group.py: loglike, loglike2'),
      ('parameters taken over from members', 'larch/model/model_group.py: unmangle')],
     state=[('parameter frame of the group', 'values, bounds and holds of all parameters of members', 'larch/model/model_group.py')],
     observe=['ModelGroup.loglike, loglike2, d_loglike, loglike_null, maximize_loglike, n_cases', 'evaluations of members'],
     technique='deterministic simulation: seeded histories on the simulated thread schedules of both engines, compared with the sum of reference models',
     note='seeded search over histories and schedules')

prop('C18', 'Models that share data do not disturb one another',
     'Several models on one data object, of either engine and attached directly or by loading, evaluate in any interleaving of their edits, evaluations and estimations as if each had the data for itself, also after the data\'s weights are rescaled and models come and go. '
     'The shared data itself stays as it was.',
     ['histories', 'inputs', 'schedules'],
     'every interleaving of the edits and evaluations of all models on the data',
     'tests give every model data of its own',
     ['larch/dataframes.pyx', 'larch/model/controller.pyx', 'larch/numba/model.py'],
     [('binding of a data object to the model that evaluates', 'larch/dataframes.pyx: _link_to_model_structure, _read_in_model_parameters'),
      ('positions of columns of new data', 'larch/numba/model.py: set_dataframes'),
      ('data made from data', 'larch/dataframes.pyx: make_dataframes')],
     state=[('shared data object', 'tables, weights, and the binding to one model', 'larch/dataframes.pyx')],
     observe=['evaluations of each model', 'parameter values of each model', 'tables of the shared data'],
     technique='deterministic simulation: seeded interleavings of the operations of several models on one data object, compared with reference models',
     note='seeded search over interleavings of whole calls; interleavings inside calls are C20')

prop('C19', 'Rate limits hold and timers are right under concurrency and clock changes',
     'A rate limiter lets through at most one call per interval, whatever threads, nested calls and failing functions use it; a non-blocking one never makes a refused call wait and refuses only when a call was let through within the interval, a blocking one lets everybody through in the end. '
     'Timers and timing logs report the time that went by, also when the time of day is changed meanwhile.',
     ['schedules', 'fault_sequences', 'histories'],
     'every interleaving of threads between any two bytecodes, every stall and clock change',
     'no test uses a limiter from two threads, and none changes the clock',
     ['larch/util/rate_limiter.py', 'larch/util/timesize.py', 'larch/log/normal.py', 'larch/log/verbose.py'],
     [('admission', 'larch/util/rate_limiter.py: NonBlockingRateLimiter, BlockingRateLimiter, GlobalRateLimiter'),
      ('elapsed time', 'larch/util/timesize.py: Timer; larch/log: TimingLog, timing_log')],
     state=[('next time to let a call through', 'guarded by the limiter\'s lock', 'larch/util/rate_limiter.py')],
     observe=['times at which calls start, are let through and end', 'Timer.elapsed', 'logged messages'],
     technique='deterministic simulation: real threads on a seeded scheduler with simulated locks, clocks, stalls and changes of the time of day',
     note='seeded search over schedules; preemption between any two bytecodes of the modules under test')

prop('C20', 'Models used by several threads at once do not affect each other',
     'Models that are built, edited, evaluated and estimated each in a thread of its own give the results they give alone, whichever engine they use and whether the threads use separate data, load from one common data object, or (numba engine) share one data object. '
     'No thread waits forever for another.',
     ['schedules', 'histories', 'inputs'],
     'every interleaving of the threads at any line of Python code of the library',
     'no test uses two threads',
     ['larch/numba/model.py', 'larch/numba/data_arrays.py', 'larch/model/controller.pyx', 'larch/model/optimization.py', 'larch/dataframes.pyx'],
     [('state at module and class level', 'larch/numba/model.py, larch/numba/data_arrays.py: slices of arrays'),
      ('preparation of an evaluation', 'larch/numba/model.py: __prepare_for_compute, reflow_data_arrays'),
      ('estimation', 'larch/model/optimization.py: maximize_loglike')],
     state=[('work arrays', 'of each model', 'larch/numba/model.py: WorkArrays')],
     observe=['evaluations and estimations in each thread', 'tables of the common data'],
     technique='deterministic simulation: real threads passed one baton by a seeded scheduler that preempts at lines of library code',
     note='seeded search over schedules; calls of compiled code are not interrupted')
