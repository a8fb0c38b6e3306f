prop("P07", "Modelled values, Jacobians and slopes come in the fit's units",
     "Converting between intensity/sigma_0 and linear/dB follows the documented formulas for all 16 combinations of source and target unit. A fit "
     "returns modelled values, Jacobians, slopes and curvatures in its own sig0/dB setting, and converts data from its own setting whenever "
     "another one is requested.",
     ["inputs", "configurations"],
     "all values and incidence angles, all 16 conversions, every fit unit setting, every call of the conversion in the package",
     "Tests run fits in one or two unit settings, and a swapped flag cancels out when both flags are equal.",
     ["rt1/general_functions.py", "rt1/rtfits.py", "rt1/rtmetrics.py"],
     [("conversion", "rt1/general_functions.py: dBsig0convert"),
      ("fit evaluation", "rt1/rtfits.py: Fits._calc_model, Fits._calc_jac, Fits._calc_slope_curv, Fits.calc")],
     "value numbering specialised to every unit combination + call-slot rule", VN_NOTE)

prop("P22", "Metrics equal their textbook definitions on correctly paired values",
     "Each metric of the metrics registry equals its textbook formula (correlation, bias, RMSD, ubRMSD, MSE decomposition and so on) for two series of equal length. "
     "The metrics accessor evaluates the metric that was requested, on the two sources that were requested, and passes them in the requested order.",
     ["inputs"],
     "all data series, every registered metric, every pair of dataset / auxiliary / parameter / model sources",
     "Tests evaluate the metrics on one stored dataset; formula deviations that vanish for zero-mean or equal-variance samples remain invisible.",
     ["rt1/rtmetrics.py"],
     [("formulas", "rt1/rtmetrics.py: RTmetrics"), ("accessor", "rt1/rtmetrics.py: _RTmetrics0, _RTmetrics1, _metric_keys")],
     "value numbering with a linear sample-mean operator + registry and wiring rules", VN_NOTE)

prop("P08", "Every optimiser slot belongs to the parameter it was created for",
     "Start values, lower and upper bounds, the unpacking of the parameter vector for model and Jacobian, the Jacobian columns and the assembly of the result all use one common "
     "order of parameters and, within a parameter, of its temporal groups. Each Jacobian entry is multiplied with the derivative of tau, omega or NormBRDF with respect to exactly the "
     "symbol it stands for, evaluated at the values distributed over the measurements, and lands in the row of its own measurement and the column of its own group. The settings in "
     "lsq_kwargs reach the optimiser.",
     ["inputs", "configurations"],
     "all numbers of parameters, groups and measurements, any declaration order of parameters (names sorted differently from their order in the definition), parameters that enter one of tau/omega/NormBRDF or a scattering function",
     "Tests fit one or two parameters per term whose alphabetical, declared and internal orders coincide, and the optimiser hides permutations that only slow convergence.",
     ["rt1/rtfits.py"],
     [("optimiser call", "rt1/rtfits.py: Fits.performfit"), ("jacobian assembly", "rt1/rtfits.py: Fits._calc_jac, _jac_assign_rule"),
      ("value distribution", "rt1/rtfits.py: Fits._assignvals, _calc_model, _set_calc_values, _calc_slope_curv")],
     "abstract evaluation of the fit set-up with one symbolic name per slot", VN_NOTE)

prop("P09", "Padding of the rectangular arrays never enters results or residuals",
     "Groups with fewer measurements are padded by repeating their last value, and the mask marks exactly the padded positions. Residuals, Jacobian rows, result frames, "
     "modelled values and averages used as start values contain every real measurement exactly once, at its own index, and no padded value; data weights are applied to the measurement they belong to.",
     ["inputs", "configurations"],
     "all numbers of groups and group lengths, masked and plain input, scalar and per-measurement weights, with and without intermediate results",
     "Tests use a dataset in which most groups have the same length, where dropping or keeping a padded value rarely changes a result.",
     ["rt1/rtfits.py", "rt1/general_functions.py"],
     [("padding", "rt1/general_functions.py: rectangularize"),
      ("removal", "rt1/rtfits.py: Fits.performfit, Fits._calc_jac, Fits.res_df, Fits.calc_model, Fits.mask, Fits._startvaldict")],
     "typestate (padded / real) over abstract evaluation", VN_NOTE)

prop("P10", "Cached intermediate results never outlive what they were computed from",
     "Assigning any attribute that defines a fit (dataset, defdict, set_V_SRF, units, ...) or the angles of an RT1 object discards every memoised member that was computed from it. "
     "Code that bypasses the attribute setters (pool workers, MultiFits) clears as well, clearing on demand covers every memoised member, a fit never starts from coefficients or terms of a previous configuration, "
     "and a re-scanned result folder drops the cached file handle.",
     ["histories", "inputs"],
     "every order of assignments and evaluations on Fits, MultiFits, RT1 and result objects, whichever members happened to be evaluated before",
     "Staleness only appears after a specific assign-evaluate-assign history on the one cached member that is missing in the clearing list; tests build fresh objects.",
     ["rt1/rtfits.py", "rt1/rt1.py", "rt1/rtresults.py", "rt1/rtprocess.py"],
     [("clearing", "rt1/rtfits.py: Fits.__setattr__ and setters, Fits._clear_cache; rt1/rt1.py: RT1._clear_cache, angle setters"),
      ("bypassing stores", "rt1/rtfits.py: MultiFits; rt1/rtprocess.py: worker functions"), ("file handles", "rt1/rtresults.py: RTresults")],
     "read-set closure of memoised members vs. interpreted clearing effects", 
     "Read sets are computed over the call graph (properties, methods, getattr with constant names). Objects held in the defining attributes are assumed to be replaced, not modified in place, between evaluations.")

TS_NOTE = ("Path-sensitive typestate analysis of the current source: every branch, loop iteration, early exit and every exception that a call inside the function can raise is followed, "
           "helpers are inlined, flags and None-tests are tracked. Trusts the analyser and the documented behaviour of the multiprocessing primitives; timing and the operating system are outside.")

prop("P14", "Every feature handed to the pool is counted once and its results reach the file",
     "In the parallel processing pipeline each processed feature is reported exactly once (with its results, or with None if reading or fitting returned nothing or raised), no report and no "
     "combined batch is dropped on the way from worker over combiner to writer, also not the ones still queued or collected when stop is announced. Combiners end only after the workers are done and the queue was found "
     "empty, writers only after the combiners are done and their queue was found empty, or if processing was aborted because writing failed; paused workers are always woken up. On every exit "
     "of the pool, also after exceptions, stop is announced and the processes are joined in this order.",
     ["inputs", "schedules", "crash points", "configurations"],
     "every interleaving of workers, combiners and writers, any number of processes and cache sizes, results that are None, empty or no dict, exceptions in reader, fit, combination and writing",
     "Tests process a handful of features once with default settings; losing the last partial batch or counting a failed feature twice needs a specific schedule or a specific failing feature.",
     ["rt1/_rtprocess_writer.py"],
     [("worker", "rt1/_rtprocess_writer.py: RT1_processor._worker_process"),
      ("combiner", "rt1/_rtprocess_writer.py: RT1_processor._combiner_process, _combine_results"),
      ("writer", "rt1/_rtprocess_writer.py: RT1_processor._save_file_process"),
      ("start and shutdown", "rt1/_rtprocess_writer.py: RT1_processor.writer_pool, stop, _start_writer_process, _start_combiner_process")],
     "path-sensitive typestate (who holds the report) per process + shutdown protocol", TS_NOTE)

prop("P15", "A restarted run processes exactly the missing features under new numbers",
     "If fit_db.h5 exists, a run (and mask_existing_HDF_IDs) selects exactly those requested features whose ID is not stored in it, each once and with unchanged reader arguments; without a file it selects all. "
     "The provided ID function decides the ID. Each selected feature gets an index number that neither a stored nor another selected feature has, and all selected features - no others - are handed to the worker pool. "
     "IDs that are no valid python identifier are turned into one in the same way when they are assigned, extracted and read back.",
     ["histories", "inputs"],
     "every set of requested and already stored features, gaps in the stored numbers, IDs of any form, interrupted runs that are continued any number of times",
     "Tests start from an empty folder; re-processing, skipping or number clashes only show for a partly filled store with gaps.",
     ["rt1/_rtprocess_writer.py", "rt1/processing_config.py", "rt1/general_functions.py", "rt1/rtprocess.py", "rt1/rtresults.py", "rt1/rtfits.py"],
     [("selection", "rt1/_rtprocess_writer.py: RT1_processor._check_IDs, run_starmap; rt1/processing_config.py: mask_existing_HDF_IDs"),
      ("numbers", "rt1/general_functions.py: find_missing"),
      ("identifiers", "rt1/rtfits.py: Fits.ID; rt1/rtprocess.py: RTprocess._extract_ID; rt1/rtresults.py: HDFaccessor._get_ID; rt1/general_functions.py: isidentifier")],
     "abstract evaluation over all membership patterns + interval reasoning", VN_NOTE)

prop("P16", "Whatever is opened, locked or overridden for a while is restored on every exit",
     "Files, HDF containers, datasets and process pools that a function opens for its own use are closed (pools: joined) on every way out of it, including exceptions. The write lock is released on every path, also when writing fails. "
     "Temporarily overridden settings (RTprocess.autocontinue during run_finaloutput, HDFaccessor.set_ID) get their initial value back on every way out. Once started, the log listener of a processing run is told to "
     "stop before it is joined, its queue handlers are removed and warnings are no longer captured, however the run ends; cleanup code never depends on a name that the failing step should have assigned.",
     ["crash points", "histories"],
     "every statement of these functions raising, every combination of options (with and without log file), repeated runs in one session",
     "Leaks appear only when a particular statement raises in between; tests exercise the successful path.",
     ["rt1/_rtprocess_writer.py", "rt1/rtprocess.py", "rt1/rtresults.py", "rt1/rtfits.py", "rt1/processing_config.py"],
     [("pool, container and lock", "rt1/_rtprocess_writer.py: RT1_processor.run_starmap, _save_file_process, create_index, get_data"),
      ("listener and autocontinue", "rt1/rtprocess.py: RTprocess.run_processing, run_finaloutput"),
      ("accessors", "rt1/rtresults.py: HDFaccessor; _RT1_fitresult.load_hdf, load_nc"), ("pickle files", "rt1/rtfits.py: load, Fits.dump, MultiFits.dump")],
     "typestate (open / closed, held / free, overridden / restored) with exception paths", TS_NOTE)

prop("P17", "Stored results are only ever appended to",
     "Every function of the package that opens a fit_db.h5 container opens it read-only or for appending, and no code replaces, rewrites or removes a table or the file itself: re-running or continuing a "
     "processing, indexing and reading leave all rows that were stored before untouched. The writer process appends every table of every result it takes from the queue exactly once, complete, under its own key and to the "
     "run's file, whether or not the key exists already, and keeps the feature ID of the reader arguments queryable.",
     ["histories", "inputs"],
     "any number of successive runs on the same file, any keys and tables delivered by the features, any mix of processing, indexing and reading",
     "Tests write one new file per run; losing rows of an earlier run shows only when a second run meets an existing file.",
     ["rt1/_rtprocess_writer.py", "rt1/rtresults.py", "rt1/rtprocess.py", "rt1/rtfits.py"],
     [("writer", "rt1/_rtprocess_writer.py: RT1_processor._save_file_process"), ("index creation", "rt1/_rtprocess_writer.py: RT1_processor.create_index"),
      ("readers", "rt1/_rtprocess_writer.py: RT1_processor.get_data; rt1/rtresults.py: HDFaccessor")],
     "tracing of container handles (mode, methods used) over the package + abstract evaluation of the writer", 
     "Handles are followed through variables, attributes, helpers and return values; an unknown use of a handle ends in an error exit. The writer is evaluated on queues with known tables. Trusts that HDFStore.append keeps existing rows.")

prop("P18", "Existing output is neither deleted nor overwritten without confirmation",
     "If the output folder of a run already exists and autocontinue is False, RTprocess.setup asks before anything is changed; YES or Y (any case) continue, any other answer stops the program with nothing changed, and REMOVE "
     "followed by a second YES / Y removes exactly that folder. Without an existing folder or with autocontinue nobody is asked and nothing removed. An existing copy of the config file or of a module in the cfg folder is kept "
     "(only init_kwargs rewrite the copied config file), missing copies are created, the sub-folders exist afterwards. Worker processes neither ask nor change files. No other code of the package removes or moves files.",
     ["inputs", "configurations", "histories"],
     "all answers, all combinations of autocontinue, copy, init_kwargs, main / worker process and of files that exist already",
     "Tests feed one or two answers into one configuration; destroying results needs a particular answer or a particular set of existing files.",
     ["rt1/rtprocess.py"],
     [("question", "rt1/rtprocess.py: RTprocess.setup, _confirm_input"), ("removal", "rt1/rtprocess.py: RTprocess._remove_dumpfolder"),
      ("copies", "rt1/rtprocess.py: RTprocess._copy_cfg_and_modules, _make_folderstructure")],
     "abstract evaluation of the set-up over a model file system, effects compared with the permitted ones; package scan for removals",
     "All scenarios (process, options, existing paths, answers) are enumerated; answers are sampled from affirmative, negative, unknown and empty ones in both cases. File system calls are recorded, not executed.")

prop("P20", "Every feature is processed and post-processed with its own data only",
     "During processing, each feature is fitted once (per config) on the dataset that the reader returned for it, and what is stored, dumped and returned for it carries its own auxiliary data (none, for a multi-config "
     "run, if the reader returned none), reader-arguments, ID and number, whatever was processed before with the same parent; a parent fit is never changed by it, a dump is written only if requested. If reading, fitting, "
     "dumping or exporting fails, the exception handler of the processing class gets the error together with the reader-arguments of this feature and its return-value is the result; without a handler the error is raised. When "
     "stored fits are post-processed, the fit with the requested ID is loaded, gets the number of its feature, and the function runs once on exactly the requested configs, with coefficients of the same config and the "
     "reader-arguments stored under that number.",
     ["inputs", "histories", "crash_points", "configurations"],
     "all sequences of features, single- and multi-config parents, all shapes of reader returns (frame, frame and one or several auxiliary datasets, nothing, empty, wrong types), failures in each step, with and without dumps and handlers, all config selections",
     "Tests process few features with one shape of reader return; values that leak from the previous feature need a particular order of features with and without auxiliary data or failures.",
     ["rt1/rtprocess.py", "rt1/rtfits.py"],
     [("processing", "rt1/rtprocess.py: RTprocess._evalfunc"), ("multi-config container", "rt1/rtfits.py: MultiFits.set_dataset, set_aux_data, set_reader_arg, set_ID, apply; _MultiAccessors.lazy, _applyit"),
      ("post-processing", "rt1/rtprocess.py: RTprocess._finalout_reader, _run_postprocess")],
     "abstract evaluation of the processing of one feature on recording fit objects that hold the previous feature's values, all scenarios enumerated",
     "Fit objects are models that record what is set and called; Fits.reinit_object and the storing functions are decided by other properties (P11, P21).")

prop("P23", "Exported tables hold the fit's own values in the requested unit",
     "For every processed feature (and config), the export to HDF returns exactly the requested parameters: dataset columns, auxiliary and time-varying fitted parameters and model contributions as time series, constant fitted, fixed "
     "and reader-argument values as static values, each taken from this fit, custom export-functions taking precedence. Backscatter and model contributions are converted to dB if and only if this is requested and the fit is "
     "not in dB already, incidence angles to degrees if and only if requested. Metrics are those requested for the given pair in the given order, all rows are indexed with the number of the feature, and exporting one "
     "fit changes neither the fit nor what is exported for the next one; the selected results, configs, numbers of files and cores and output names are those that were requested.",
     ["inputs", "configurations", "histories"],
     "all kinds of parameters (dataset, auxiliary, constant, fixed, fitted with every kind of dynamics, model contributions, reader arguments, unknown names), all unit settings and requests, sequences of fits, single and multiple configs",
     "Tests export a few parameters of one fit type; a wrong source or unit needs a particular combination of parameter kind, unit setting and conversion flag, or a second fit.",
     ["rt1/rtprocess.py"],
     [("export", "rt1/rtprocess.py: RTprocess.export_data_to_HDF, _HDF_export_postprocess, _postprocess_getparams, _defdict_parser")],
     "abstract evaluation with symbolic column values against the documented source and unit of every kind of parameter",
     "The result processing that calls the exported function is recorded (its use of the function is P20); DataFrame operations are modelled column-wise.")

prop("P11", "A fit or scattering function re-created from its definition is the same",
     "`fit.reinit_object(**kwargs)` returns a new fit that equals one initialised with the definition the parent has at the time of the call (sig0, dB, dataset, defdict, set_V_SRF, lsq_kwargs, int_Q, lambda_backend, verbose, ID), except for the "
     "passed arguments; it carries no results, evaluated fn-coefficients only with share_fnevals=True and aux_data only unless share_auxdata=False, the parent stays unchanged, and defdict, set_V_SRF and lsq_kwargs are independent copies. The list- and "
     "dict-representation of a defdict, and all ways to read and set the properties of its variables, agree, so that a defdict made from either representation is the same definition in the same order. Initialising a scattering function from its "
     "`init_dict` gives the same class with the same parameters (also within linear combinations), parameters that are given as values are inserted wherever their names occur, and `free_symbols` are the remaining symbols.",
     ["inputs", "configurations", "histories"],
     "all values of the definition and overrides of each of them, definitions changed after initialisation, all scattering functions and linear combinations with symbols, expressions and numbers as parameters, all partial assignments",
     "Tests re-create fits with default settings; a forgotten or aliased part of the definition only matters for fits with non-default settings or if the definition is changed later.",
     ["rt1/rtfits.py", "rt1/_containers.py", "rt1/volume.py", "rt1/surface.py"],
     [("re-initialisation", "rt1/rtfits.py: Fits.__init__, Fits._reinit_object, Fits.reinit_object, Fits.__setattr__"), ("definition containers", "rt1/_containers.py: _RT1_defdict, _RT1_variable"),
      ("scattering functions", "rt1/rtfits.py: Fits._init_V_SRF; rt1/volume.py: init_dict, _param_names; rt1/surface.py: init_dict, _param_names")],
     "abstract evaluation of constructors and attribute protocols over a heap model; comparison of the re-created object with one built from the same arguments",
     "sympy expressions are modelled by their text and free symbols; the `a` parameter is assumed to be a list of numbers; defdicts with per-group bounds are not covered.")

prop("P21", "A stored or dumped fit is loaded with the same definition, data and results",
     "A Fits or MultiFits object that has been stored in the HDF store (alone or together with others, in single- or multi-config form) is loaded, by its ID or its number, with the sig0, dB, defdict, set_V_SRF (also if it has been given as function), "
     "lsq_kwargs, int_Q, ID, reader_arg, dataset, aux_data and the fitted parameters (res_dict) of every config with which it has been stored; of the dataset, auxiliary data and results only what the save_data, save_auxdata, save_results and "
     "save_res_df options exclude is missing, but with results the columns of fitted 'manual' dynamics are always stored. A fit that is dumped with `dump` and loaded with `load` has all attributes of the original (with mini=True except for the "
     "evaluated fn-coefficients and the details of the fit-output), and storing or dumping a fit, also if writing the dump fails, leaves it unchanged. `load_fit` of a result returns the fit that was requested (dump-file name, path, number or ID; "
     "with return_ID=True together with its ID), whether dumps or the store are used.",
     ["inputs", "configurations", "histories"],
     "all values of the definition, data and results; single- and multi-config fits with different parameters per config; all storing options, missing parts, kinds of IDs and numbers; failing dumps; all ways to request a fit",
     "Tests store one kind of fit with default options; parts that are lost or mixed up need several fits in a store, particular options, IDs that are no identifiers, or missing parts.",
     ["rt1/rtfits.py", "rt1/rtresults.py"],
     [("writing", "rt1/rtfits.py: Fits._get_fit_to_hdf_dict, _get_init_dict, _get_V_SRF_dict, _get_res_dict_df, dump, __getstate__; MultiFits.dump"),
      ("reading", "rt1/rtresults.py: HDFaccessor._load_fit, _get_id, _ID_to_IDnum; _RT1_fitresult.load_fit; rt1/rtfits.py: load, __setstate__")],
     "abstract evaluation of writer and reader over models of tables (pandas) with symbolic cells, the HDF store and pickling; comparison of the loaded with the stored object",
     "Assumed: pandas' HDF store returns the rows that were appended, and text representations of values (str) are read back by literal_eval (numpy scalars within defdict or lsq_kwargs are not covered). IDs of fits without 'ID' in reader_arg are stored sanitized.")

prop("P12", "Configuration files and their overrides are converted exactly as documented",
     "Every entry of an .ini file is converted as documented for its section: the prefixes (int__, float__, bool__, path__, datetime__, list__) of PROCESS_SPECS, the typed entries of fits_kwargs and least_squares_kwargs, the lists of defdict, numbers, `a` and `ncoefs` "
     "of RT1_V and RT1_SRF including linear combinations, the text 'None' as None; malformed values are rejected. Each '#config NAME section' replaces exactly the given entries of the default section, for this config only, and the fit "
     "(or one fit per config), the processing-class and the modules are created from exactly these values. Values passed as init_kwargs or to RTprocess.override_config (override=True replaces earlier ones; False adds to them, new values win) take precedence over the "
     "file in the main and in every worker process, with copy=True and False and also if the file has already been copied; unknown sections are rejected and the given dictionaries stay as they are.",
     ["inputs", "configurations", "histories"],
     "all texts of the values, all kinds of entries, all sections overridden by configs, sequences of overrides, main and worker processes, copied and original files",
     "Tests parse a few fixed .ini files; a wrong conversion of one kind of entry, an override that leaks into another config or does not reach worker processes needs a particular file or a sequence of overrides.",
     ["rt1/rtparse.py", "rt1/rtprocess.py"],
     [("parser", "rt1/rtparse.py: RT1_configparser.__init__, _check_integrity, _parse_dict, _parse_V_SRF, _parse_defdict, get_config, config_names, get_fitobject, get_module, get_all_modules, get_process_specs"),
      ("overrides", "rt1/rtprocess.py: RTprocess.__init__, override_config, setup, _copy_cfg_and_modules")],
     "abstract evaluation of the parser over a model of ConfigParser whose values are symbolic texts; comparison of every converted entry with the documented conversion of the text at its place in the file",
     "ConfigParser (sections, interpolation, allow_no_value, optionxform) is modelled; the order of the configs is not specified; prefixed entries with the value None are not covered.")

prop("P13", "Objects that a user passes or that a fit holds are never modified in place",
     "No public function, method, constructor or property setter modifies in place an object that has been passed to it (datasets, arrays, lists and dictionaries like defdict, res_dict, param_dict, reader_args, pool_kwargs, lsq_kwargs or init_kwargs, and "
     "anything contained in them): neither directly, nor in a function it calls, nor later on via a reference that has been kept in an attribute. The same holds for the tables, dictionaries and arrays that a fit holds as its dataset, aux_data, reader_arg, "
     "set_V_SRF, res_dict, start_dict, fixed_dict and param_dict, and for the values of cached properties, which are only replaced as a whole. No call changes a default argument value for later calls.",
     ["inputs", "histories"],
     "all public functions with all their arguments, all kept references, cached properties and default values, over all paths of the call graph",
     "A test sees the returned value; that its input has been changed on the way shows up only if the same object is used again, in another call or another fit.",
     ["rt1/*.py"],
     [("fits", "rt1/rtfits.py: Fits, MultiFits"), ("processing", "rt1/rtprocess.py: RTprocess.run_processing, run_finaloutput, export_data_to_HDF; rt1/processing_config.py"),
      ("model", "rt1/rt1.py, rt1/volume.py, rt1/surface.py, rt1/scatter.py"), ("functions", "rt1/general_functions.py, rt1/rtmetrics.py, rt1/rtplots.py, rt1/_containers.py")],
     "interprocedural may-alias and may-modify analysis (flow-sensitive, with container depth, function summaries and kept references)",
     "Results of functions outside the package are taken as new objects, except for views (asarray, reshape, .loc, .values ...) and containers; attributes of rt1's own objects are not part of this property; arguments that are passed to worker processes are not followed.")

prop("P19", "Interaction coefficients are the exact azimuthal integral of the series",
     "The fn-coefficients of the first-order interaction term are the coefficients of the powers of cos(theta_s) in the azimuthal integral (0 to 2 pi over phi_s) of the product of the expansion series of V and SRF, "
     "complete up to the order ncoefs_V + ncoefs_SRF - 2, for each number of coefficients and each geometry. They are evaluated with every angle and every named parameter bound to its own symbol, identically for both lambda backends. "
     "Coefficients (fn_input) or functions (_fnevals_input) that are provided by the user are used unchanged.",
     ["inputs", "configurations"],
     "all coefficients, angles and parameter values of the two series (generic polynomials), the enumerated series lengths, both lambda backends, computed and provided coefficients",
     "Tests compare a handful of scattering-function pairs with stored numbers to a few digits; a wrong term of higher order or of odd symmetry vanishes or is tiny for those.",
     ["rt1/rt1.py"],
     [("expansion", "rt1/rt1.py: RT1._set_fn, _calc_interaction_expansion, _integrate_0_2pi_phis, _cosintegral, _extract_coefficients"),
      ("evaluation", "rt1/rt1.py: RT1._set_fnevals, _fnevals, _calc_Fint_1, _calc_Fint_2")],
     "abstract evaluation of the symbolic pipeline over exact generic polynomials and comparison with the closed integral",
     "The series are polynomials of the scattering angle of the enumerated sizes; sympy's expand, xreplace, coeff, collect and lambdify are modelled by their documented meaning; accuracy of truncating the series is not part of this property.")

prop("P24", "A final output covers exactly the fits selected by the current call",
     "A final output (RTprocess.run_finaloutput, export_data_to_HDF) loads and hands every stored fit to the post-processing pool exactly once: those that are in fit_db.h5 when the call starts or, with use_dumps, the .dump files whose name does not contain 'error'; "
     "only the first use_N_files of them, or exactly those of fitlist, if requested. Each fit is loaded from the source selected by this call, whatever earlier calls of the same object selected or whether they failed and whatever the names of the folders are. "
     "The fit database is closed when the call ends, however it ends.",
     ["histories", "inputs", "faults"],
     "all selections (source, number of files, fitlist), folder names, sequences of calls with changes of the folder in between, and runs that fail",
     "Tests run one export on one result folder; a stale selection, a database that stays open or a folder name that hides the results needs a second call, a failing run or a particular name.",
     ["rt1/rtprocess.py", "rt1/rtresults.py"],
     [("selection", "rt1/rtprocess.py: RTprocess.run_finaloutput, export_data_to_HDF, _get_files, _set_useres, _release_useres, _run_finalout, _finalout_reader"),
      ("results", "rt1/rtresults.py: RTresults.__init__, _addresult, _check_folderstructure, _RT1_fitresult.load_fit, dump_files, dump_fits, fit_db, load_hdf, _get_results, rescan")],
     "abstract evaluation of the real lookup and loading code over a model of the result folder and of open databases, for sequences of calls",
     "The worker pool is replaced by its contract (property P14: every feature is handed to the reader once); setup() and the log listener are modelled; only the first 100 entries of a folder are searched for sub-folders, as documented.")
