import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=[observe]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
PR="dataprofiler/profilers/"
p("C01","Numeric column statistics are exact for every batching of the data",
 "For a column of integers, decimals or text (where the numbers are the string lengths), the reported minimum, maximum, sum, mean, variance, standard deviation, skewness, kurtosis, zero count, negative count and, for decimals, the significant-figure precision statistics equal the mathematical values over all non-null values given so far. This holds after every update, however the values are split into successive updates (including empty and all-null ones), whether bias correction is on or off, and whichever of these statistics are enabled.",
 ["inputs","histories","configurations"],"every sequence of value batches up to the bound, every split of the sequence into updates, bias correction on/off, each statistic switched off",
 "Tests profile a handful of fixed columns, mostly in one update; the incremental formulas can be wrong only for particular splits (first batch empty, running minimum equal to 0, single-value batches).",
 [PR+"numerical_column_stats.py",PR+"int_column_profile.py",PR+"float_column_profile.py",PR+"text_column_profile.py"],
 [("streaming moments and merge formulas",PR+"numerical_column_stats.py: _get_min.._update_*, _merge_biased_*"),("precision",PR+"float_column_profile.py: _update_precision, _get_float_precision")],
 "Profiler(...).update_profile(...); report()['data_stats'][i]['statistics']")
p("C02","Merging profiles equals profiling the combined data",
 "Adding two profiles gives a profile whose report (counts, nulls and null positions, data types, numeric statistics, categories, datetime range and formats, duplicate-row accounting) equals that of one profile built from the first operand's data followed by the second's, for any way of splitting the data into profiles and any merge tree, also when an operand is all null in a column. The order of the values equals that of the same batches given as successive updates, and histogram-based estimates agree with the data up to the width of their bins. The result can be updated or merged further with the same equality.",
 ["histories","inputs"],"every merge tree with up to 3 profiles over the alphabet of batches, followed by up to one more update",
 "Tests merge a few fixed pairs and rarely update or merge the result again; merge formulas have special cases for empty operands, zero-valued minima and different lengths.",
 [PR+"profile_builder.py",PR+"column_profile_compilers.py",PR+"base_column_profilers.py",PR+"numerical_column_stats.py",PR+"categorical_column_profile.py",PR+"order_column_profile.py",PR+"datetime_column_profile.py",PR+"text_column_profile.py"],
 [("profile addition",PR+"profile_builder.py: StructuredColProfiler.__add__, StructuredProfiler.__add__"),("column addition",PR+"*_column_profile.py: __add__, _add_helper")],
 "(p1 + p2).report()")
p("C03","Histogram, quantiles, median, mode and MAD stay true to the data",
 "After every history of updates and merges, the reported histogram of a numeric column accounts for every non-null value exactly once, its ordered bin edges start at the column's minimum and end at its maximum, and with a fixed number of bins the counts of data added in one update are the exact bin counts. Quantiles are non-decreasing, lie within [minimum, maximum], and like the median and the median absolute deviation they match the exact value for the data up to the width of the internal bins. The modes are the most frequent values (exact for data given in one update, up to bin width afterwards), at most the configured number of them. Asking for any of these never changes later answers, and an automatic bin rule picks the bin count that rule defines.",
 ["inputs","histories","configurations"],"every sequence of update/merge/report operations up to the bound over value batches that widen, narrow, repeat and skew the range, for automatic and fixed bin counts",
 "Tests check fixed data sets; errors in carrying bins over when the range grows, in tie handling or in zero-valued medians need particular sequences.",
 [PR+"numerical_column_stats.py",PR+"histogram_utils.py"],
 [("histogram update and assimilation",PR+"numerical_column_stats.py: _update_histogram, _assimilate_histogram, _histogram_to_array, _histogram_for_profile"),("quantiles/median/mode/MAD",PR+"numerical_column_stats.py: _get_percentile, _estimate_mode_from_histogram, median_abs_deviation"),("automatic bins",PR+"histogram_utils.py")],
 "report()['data_stats'][i]['statistics']['histogram'|'quantiles'|'median'|'mode'|'median_absolute_deviation']")
p("C04","Null and row-completeness accounting is exact",
 "For every table and every way of feeding it in successive updates, each column's sample size, null count, set of null kinds, the row positions of each null kind (row labels of an integer index; a batch whose labels overlap earlier ones is numbered on from the largest so far) and the ratios of rows with any null and with only nulls are exactly those of the data. Exactly the values matching the configured null patterns (default, user-supplied, or per-column) count as null, and null values never influence any other statistic.",
 ["inputs","histories","configurations"],"every small table over an alphabet of values and null tokens, every split into updates, the default/custom/per-column null configurations and any DataFrame index",
 "Tests use fixed tables, mostly with a default integer index and one update.",
 [PR+"profile_builder.py"],[("null cleaning",PR+"profile_builder.py: StructuredColProfiler.clean_data_and_get_base_stats, _update_base_stats"),("row stats",PR+"profile_builder.py: _update_row_statistics, _get_row_has_null_ratio, _get_row_is_null_ratio")],
 "report()['global_stats'] and report()['data_stats'][i]['statistics']")
p("C05","Unique and duplicate row accounting",
 "With exact row hashing, for every table and every split of it into updates or merged profiles, the reported row count, duplicate row count and unique row ratio are exactly those of all rows fed so far, two rows being duplicates exactly when they have equal cells in the same columns. With the approximate method the unique-row estimate depends only on the set of rows fed (not on order, splitting or merging) and is accurate for small tables.",
 ["inputs","histories","configurations"],"every small table over colliding rows, every split into updates/merges, both hashing methods",
 "Tests check a few tables in at most two batches.",
 [PR+"profile_builder.py"],[("row hashing",PR+"profile_builder.py: _update_row_statistics, _get_unique_row_ratio, _get_duplicate_row_count, _merge_profiles row hashes")],"report()['global_stats']")
p("C06","Column data type detection",
 "A column whose non-null values are all dates in supported formats is reported as datetime, else all whole numbers as int, else all numbers as float, else as string (or text when long); and the reported ratio of values matching each type is exactly the share of non-null values given so far which are of that type, for every sequence of updates and merges. A number is what Python's float() accepts, an int one of whole value. Statistics of the reported type are those computed for it.",
 ["inputs","histories"],"every multiset of lexical forms (signs, spaces, exponents, thousands, hex, dates, words) up to the bound and every split into updates",
 "Tests use fixed homogeneous columns.",
 [PR+"column_profile_compilers.py",PR+"int_column_profile.py",PR+"float_column_profile.py",PR+"datetime_column_profile.py",PR+"text_column_profile.py",PR+"base_column_profilers.py"],
 [("type selection",PR+"column_profile_compilers.py: ColumnPrimitiveTypeProfileCompiler.selected_data_type, profile"),("lexical tests",PR+"int_column_profile.py: is_int; float_column_profile.py: is_float; datetime_column_profile.py: _validate_datetime")],
 "report()['data_stats'][i]['data_type'], ['statistics']['data_type_representation']")
p("C07","Categorical counts and decisions",
 "For every history of updates and merges, the reported categories, per-category counts, unique count and ratio, gini impurity and unalikeability of a column are exactly those of its non-null values, and the column is reported categorical exactly when the documented distinct-value limits hold. A top-k limit on displayed categories shows k most frequent ones and changes nothing else; a count-min-sketch category count never undercounts a heavy category; a configured stop condition takes effect exactly when its thresholds are reached and freezes the figures then reported.",
 ["inputs","histories","configurations"],"every sequence of batches over a small value alphabet around the decision thresholds, with top-k, sketch and early-stop configurations",
 "Tests use a few fixed columns; thresholds and the interaction of options with merges need particular histories.",
 [PR+"categorical_column_profile.py"],[("counting, stop conditions, sketch",PR+"categorical_column_profile.py")],"report()['data_stats'][i]['categorical'|'statistics']")
p("C08","Order detection",
 "For every sequence of values given in one update, the column order is reported as constant, ascending, descending or random exactly as the sequence of non-null values is (compared as numbers if all are numbers, else as text). Over several updates or merged profiles the orders of the pieces combine: to a common direction when the ranges of the pieces continue in that direction, to random when the directions conflict or the ranges overlap; constant pieces agree with either direction, random is final, and empty or all-null pieces change nothing. The index of the data plays no part.",
 ["inputs","histories"],"every value sequence up to the bound over a 3-letter alphabet and every split into updates and merges",
 "Tests try some tens of sequences; the merge of orders across batches is a case analysis over boundary values.",
 [PR+"order_column_profile.py"],[("order automaton and merge",PR+"order_column_profile.py: _get_data_order, _merge_order, _is_intersecting, _is_enveloping")],"report()['data_stats'][i]['order']")
p("C09","Datetime columns",
 "For every sequence of date strings in supported formats, split in any way into updates or merged profiles, the reported earliest and latest values are the chronologically first and last of them as they were written, and the reported formats are exactly formats that match the values seen. Values that are not dates never affect them.",
 ["inputs","histories"],"every sequence of date strings up to the bound over several formats, every split into updates/merges",
 "Tests use single-format columns in one or two updates.",
 [PR+"datetime_column_profile.py"],[("parsing and min/max",PR+"datetime_column_profile.py")],"report()['data_stats'][i]['statistics']['min'|'max'|'format']")
p("C10","Unstructured text profile counts",
 "For every sequence of text batches and every split into updates or merged profiles, an unstructured profile reports the exact number of samples, empty lines, the vocabulary (set of characters), and word counts of the non-empty text under the configured case sensitivity and stop-word list. Top-k limits only shorten the reported lists to the most frequent entries.",
 ["inputs","histories","configurations"],"every sequence of text batches over a small alphabet, splits into updates and merges, case sensitivity, stop words and top-k settings",
 "Tests use a few fixed texts.",
 [PR+"unstructured_text_profile.py",PR+"profile_builder.py"],[("vocabulary and word counts",PR+"unstructured_text_profile.py: TextProfiler"),("sample accounting",PR+"profile_builder.py: UnstructuredProfiler")],"report() of an unstructured profile")
p("C11","Save and load preserve the profile and its future",
 "Saving a profile (pickle or JSON, to a path) and loading it gives a profile with an identical report, and from then on every update, merge, diff, report or further save of the loaded profile gives the same outcome as on the original. Saving does not change the saved profile, and a configuration that a format does not support is refused when saving.",
 ["histories","configurations"],"every history of updates/merges up to the bound, followed by save/load with each method and every continuation up to the bound",
 "Tests compare a few attributes right after loading; they do not continue the history on the loaded object.",
 [PR+"profile_builder.py",PR+"json_encoder.py",PR+"json_decoder.py",PR+"base_column_profilers.py"],[("save/load",PR+"profile_builder.py: save, load, _save_helper, load_from_dict"),("decoders",PR+"json_decoder.py")],"save(...), load(...), report()")
p("C12","A failing save or a torn profile file is never silent",
 "If writing a profile fails at any point, the save call raises and the in-memory profile keeps working exactly as before. Loading any proper prefix of a saved profile file raises an error instead of returning a profile.",
 ["crash_points","fault_sequences"],"a fault at every write/open/close call of every save variant; every truncation point of the saved file",
 "No test injects I/O faults or loads truncated files.",
 [PR+"profile_builder.py"],[("save/load",PR+"profile_builder.py: _pkl_save_helper, save, load")],"save(filepath), load(filepath)")
p("C13","Reading, combining and saving never change their operands",
 "Reporting in any format, diffing, adding, saving and inspecting profiles leave the operands' reports and their future behaviour unchanged, and leave the caller's data, options and arguments unmodified. The result of an addition shares nothing with its operands: updating one never changes the other.",
 ["histories","configurations"],"every sequence of read-only operations up to the bound between updates",
 "Tests check results of operations, not that operands stay the same.",
 [PR+"profile_builder.py",PR+"base_column_profilers.py",PR+"numerical_column_stats.py",PR+"categorical_column_profile.py"],[("report/diff/add",PR+"profile_builder.py")],"report() before and after")
p("C14","Profile diff is consistent with the two reports",
 "Diffing two profiles reports for each compared statistic 'unchanged' when it is equal and otherwise the difference first minus second (numbers, times), the pair (labels), or the [only first, shared, only second] split (sets), exactly as computed from the two profiles' own reports; columns are compared when both have the same columns in the same order, and the t-test, chi-square test and categorical stability index are those of the two columns' figures. Diffing a profile with itself or a copy reports no change, and swapping operands negates numeric differences and swaps the pairs and splits.",
 ["inputs","histories"],"every ordered pair of profiles reachable by bounded histories",
 "Tests check fixed pairs against fixed dictionaries.",
 [PR+"profiler_utils.py",PR+"profile_builder.py",PR+"numerical_column_stats.py",PR+"categorical_column_profile.py",PR+"order_column_profile.py",PR+"datetime_column_profile.py",PR+"text_column_profile.py"],[("diff helpers",PR+"profiler_utils.py: find_diff_of_*"),("column diffs",PR+"*: diff")],"p1.diff(p2)")
p("C15","Parallel profiling equals sequential profiling",
 "With any number of columns, any worker count, any order of completion of parallel tasks and any subset of tasks failing in the workers, the resulting profile equals the one computed without parallelism. A column whose parallel task fails is still profiled, each column exactly once, with its own data.",
 ["schedules","fault_sequences"],"every completion order and every failure subset of the parallel tasks for small tables under a controlled pool",
 "Tests run one schedule of the real pool with no failing workers.",
 [PR+"profile_builder.py",PR+"profiler_utils.py",PR+"column_profile_compilers.py"],[("pool use",PR+"profile_builder.py: _update_profile_from_chunk, profiler_utils.py: generate_pool, suggest_pool_size")],"report() of both")
p("C16","Updates and merges match columns by name or fail cleanly",
 "An update or merge whose columns have the same names in any order (repeated names at the same positions) attributes every value to the column of that name. An incompatible one (missing, extra, different or ambiguously repeated names, wrong type of data or operand, different options that matter) raises and leaves the profile exactly as it was, still usable.",
 ["inputs","histories"],"every pair of column-name tuples up to the bound over a small alphabet with repetitions, interleaved with successful updates",
 "Tests try a few orders and mismatches.",
 [PR+"profile_builder.py"],[("schema mapping",PR+"profile_builder.py: _get_and_validate_schema_mapping, __add__")],"update_profile, +, report()")
p("C17","Sampling never miscounts",
 "When only a sample of the rows is profiled, the sample is a set of distinct rows of the given data of exactly the requested size, extended only until the requested number of non-null values is reached; the reported sample sizes are those of the values actually used and the row count that of the rows given. Every row has a chance to be drawn, and profiling everything uses every row exactly once.",
 ["inputs","configurations","schedules"],"every permutation the sampler can draw for small columns, every sample-size and minimum-true-samples setting",
 "Tests see one random draw.",
 [PR+"profiler_utils.py",PR+"profile_builder.py"],[("shuffle in chunks",PR+"profiler_utils.py: shuffle_in_chunks"),("sampling loop",PR+"profile_builder.py: clean_data_and_get_base_stats")],"report() counts")
p("C18","Options remove exactly what they name; report formats agree",
 "Turning a statistic or column analysis off removes it from the report (an empty placeholder unless disabled keys are to be removed) and changes no other reported value, except for what is derived from it; an inconsistent combination is refused as the options documentation demands. Every output format presents the same facts, and omitted keys disappear without affecting the rest.",
 ["configurations","inputs"],"every subset (up to pairs) of switchable options on a set of tables, every output format",
 "Tests toggle options on one table and check for presence, not that the other values are unaffected.",
 [PR+"profiler_options.py",PR+"profile_builder.py",PR+"helpers/report_helpers.py"],[("options",PR+"profiler_options.py"),("report formats",PR+"helpers/report_helpers.py: _prepare_report")],"report(report_options)")
p("C19","Correlation, chi-square and null-replication matrices",
 "For every table and every split into updates or merged profiles, the correlation matrix of numeric columns equals the Pearson correlation of all rows without nulls in them (a row with some nulls is imputed with the means of its batch), the chi-square matrix equals the test on the categorical counts, and the null-replication metrics of numeric columns equal those of the whole data. Matrices are indexed by the reported columns, in whatever order the columns arrive.",
 ["inputs","histories"],"every small table and split",
 "Tests use a few fixed tables.",
 [PR+"profile_builder.py",PR+"categorical_column_profile.py"],[("correlation",PR+"profile_builder.py: _update_correlation, _merge_correlation"),("chi2",PR+"profile_builder.py: _update_chi2"),("null replication",PR+"profile_builder.py: _update_null_replication_metrics, _merge_null_replication_metrics")],"report()['global_stats']")
DR="dataprofiler/data_readers/"
p("C20","CSV reading is faithful",
 "A delimited file written from a table with any supported delimiter, quote character, header position, line ending and encoding reads back to exactly the same cells in the same rows and columns, each as the exact text, from a path or a buffer, when the parameters are given, and the selected columns are exactly those named; when they are left to detection, the detected delimiter and header are those of the file for unambiguous files (a header of words over numbers). Reading a limited number of sampled rows gives exactly that many distinct whole rows of the file.",
 ["inputs","configurations"],"every small table over a cell alphabet with quotes, delimiters, blanks and line breaks, every delimiter/quote/header/line-ending variant",
 "Tests read fixed sample files and compare counts.",
 [DR+"csv_data.py",DR+"data_utils.py"],[("CSV load",DR+"csv_data.py"),("read_csv_df",DR+"data_utils.py")],"CSVData(path, options).data")
p("C21","JSON, Avro, Parquet and text reading is faithful",
 "Every collection of records written as JSON (array, line-delimited, nested or under a payload key), Avro or Parquet reads back with one row per record in order, each field's value as its text under its (flattened) name and missing fields as missing, for every output format, key selection and row sample. Text files read back so that joining the returned pieces gives the original text.",
 ["inputs","configurations"],"every small record set over a value alphabet and key-presence pattern, each format and reading option",
 "Tests read fixed files and compare counts.",
 [DR+"json_data.py",DR+"avro_data.py",DR+"parquet_data.py",DR+"text_data.py",DR+"data_utils.py",DR+"structured_mixins.py"],[("readers",DR)],"Data(path).data")
p("C22","File type detection and buffers",
 "A file of each supported type is opened as that type whatever its name, an in-memory buffer, URL or S3 object with the same bytes gives the same type and data as the file, and detection leaves a buffer at its start and usable. Reading, re-reading and reloading (the same or another input, with the same or other options) give the same data as a new reader each time, and batches partition the rows in order.",
 ["inputs","histories"],"every file type x name extension x path/bytes/text buffer x sequence of accesses",
 "Tests check type detection on fixed files.",
 [DR+"data.py",DR+"filepath_or_buffer.py",DR+"base_data.py"],[("auto-detection",DR+"data.py"),("buffers",DR+"filepath_or_buffer.py")],"Data(input).data_type, .data")
LB="dataprofiler/labelers/"
p("C23","Character labeling stays aligned with the text",
 "For every batch of texts of any lengths, splitting them for a character-level model and reassembling its outputs yields for each text exactly one label per character, equal to what the model said about that character, independent of batch size, maximum length and of the other texts in the batch. Entity spans derived from them point at exactly those characters, a cell's label is decided by its own characters only, and samples prepared for training keep every character with its label.",
 ["inputs","configurations"],"every tuple of texts up to the bound x max length x batch size x separator settings",
 "Tests use a few strings and fixed lengths.",
 [LB+"data_processing.py"],[("split/reassemble",LB+"data_processing.py: CharPreprocessor, CharPostprocessor, StructCharPreprocessor, StructCharPostprocessor")],"preprocessor.process, postprocessor.process")
p("C24","Rule-based labeling",
 "The regex labeler marks a character with a label exactly when a pattern of that label (with its configured encapsulation and case rule) covers it, resolves overlaps by the configured rule, and the column-name labeler picks the label whose reference name scores best above the threshold and honours exclusions. Results do not depend on the other inputs, and every input gets its own answer however many there are.",
 ["inputs","configurations"],"every short string over a small alphabet and every small pattern set",
 "Tests use a few strings.",
 [LB+"regex_model.py",LB+"column_name_model.py",LB+"data_processing.py"],[("regex model",LB+"regex_model.py"),("column-name model",LB+"column_name_model.py"),("post processing",LB+"data_processing.py: RegexPostProcessor, StructRegexPostProcessor, ColumnNameModelPostprocessor")],"predict")
p("C25","Data label votes of a column",
 "For every history of updates and merges, each value of a column votes for its most confident label (if above the confidence threshold), the label probabilities are the average of the model's confidences over all the values labeled, the reported label is derived from them by the documented thresholds, at most the configured number of values is labeled, and a column with no values reports none. The entity counts and percentages of unstructured text equal those of the model's labels, by character and by word.",
 ["inputs","histories"],"every sequence of batches x every answer of a controlled model over a 3-label alphabet",
 "Tests mock one answer.",
 [PR+"data_labeler_column_profile.py",PR+"unstructured_labeler_profile.py"],[("votes",PR+"data_labeler_column_profile.py"),("unstructured counts",PR+"unstructured_labeler_profile.py")],"report()['data_stats'][i]['data_label']")
p("C26","Graph profile counts",
 "For every edge list, the graph reader yields exactly its nodes, edges and edge attributes, and the graph profile reports exactly the number of nodes and edges, average degree, attributes by kind, the categories of categorical attributes, and the largest component size of that graph, the same after saving and loading; a diff of two graph profiles gives the differences of these.",
 ["inputs"],"every graph with up to 4 nodes and attribute pattern",
 "Tests use one or two graphs.",
 [PR+"graph_profiler.py",DR+"graph_data.py"],[("graph",PR+"graph_profiler.py")],"GraphProfiler(...).report()")
p("C27","Results are reproducible under a fixed seed",
 "With dataprofiler's seed fixed, repeating the same history of reads, profiles, merges and reports gives identical results (sets such as the vocabulary and the date formats up to their order) regardless of what ran before in the process, of the state of numpy's and Python's global generators (which sample lines of a text profile are shown excepted) and of string hashing.",
 ["histories","schedules"],"every bounded history x every perturbation of the process's other random state",
 "Tests run each scenario once.",
 ["dataprofiler/rng_utils.py",PR+"profile_builder.py",DR+"data_utils.py"],[("seeded generators","dataprofiler/rng_utils.py")],"report()")
p("C28","Validator results are exact",
 "For every table and rule set, the validator reports exactly the rows whose value lies in a configured (closed) range or equals a configured list value, per column and rule, and nothing else; the result is always that of the last validation only.",
 ["inputs","configurations"],"every small table and rule set",
 "Tests use one table.",
 ["dataprofiler/validators/base_validators.py"],[("rules","dataprofiler/validators/base_validators.py")],"Validator.get()")
p("C29","Data labelers keep their settings, labels and answers",
 "For every history of setting parameters, setting and adding labels, predicting, and saving and loading, a data labeler has exactly the parameters, label mapping and answers of a new labeler with those settings: a change does exactly what it names, an invalid one is refused leaving the labeler as it was, predicting and reading settings change nothing, and labelers made of the same values do not affect each other. The kind of container, its index, the batch size and dividing the inputs over calls do not change answers; shared parameters on which the parts disagree are reported (or refused when asked); training gives each sample with its own label, in disjoint training and validation parts which stay the same over the epochs; and a network refuses to predict after a change of its number of labels until trained.",
 ["histories","inputs","configurations"],"every sequence of parameter and label changes, training and save-and-load up to the bound for five kinds of labelers and a small real network; every shuffle of a few training samples",
 "Tests set one or two parameters and save and load once.",
 [LB+"base_data_labeler.py",LB+"base_model.py",LB+"regex_model.py",LB+"column_name_model.py",LB+"character_level_cnn_model.py",LB+"data_processing.py"],[("labeler",LB+"base_data_labeler.py"),("models",LB+"base_model.py, character_level_cnn_model.py"),("processors",LB+"data_processing.py: BaseDataProcessor, set_params, load_from_disk")],"DataLabeler.set_params, set_labels, add_label, fit, predict, save_to_disk, load_from_disk")
p("C30","Options are set exactly as named and invalid ones are refused",
 "Setting an option by its full, shortened or wildcard name sets exactly the first option of that name on each branch it covers and nothing else; later settings win, unknown names below a named group are refused leaving the options unchanged, ambiguous ones must say structured or unstructured, presets are exactly their documented settings, and instances and copies never affect each other. Validation reports an error naming each invalid value and each contradictory combination, and none otherwise; it changes nothing, no profile is made with invalid options, and options survive a round trip through JSON.",
 ["inputs","histories","configurations"],"every way to name every option; pairs and triples of settings; every valid and invalid value alone and in pairs; every combination of dependent statistics",
 "Tests set a handful of names and values.",
 [PR+"profiler_options.py"],[("setting",PR+"profiler_options.py: BaseOption._set_helper, ProfilerOptions.set"),("validation",PR+"profiler_options.py: _validate_helper"),("JSON",PR+"json_decoder.py")],"ProfilerOptions.set, validate, Profiler(options=)")
p("C31","Profiling a file is profiling its contents",
 "The kind of profile follows from the input (graphs, texts, tables) unless a kind is given, and a combination that makes no sense or an unsupported input is refused. Profiling opened files, lists, series or tables, in any sequence of updates, merges, saving and loading, reports the same statistics as the same rows given as a plain table; the reported file type and encoding are those of the last data profiled that has one, 'multiple files' after merging profiles that differ in it, and refused or empty inputs leave the profile unchanged.",
 ["inputs","histories"],"every input x profiler type; every sequence of up to 3 sources updated or merged, refused inputs, saves and loads; every split of a column over the forms of input",
 "Tests build one profile per reader.",
 [PR+"profile_builder.py",DR+"base_data.py"],[("factory",PR+"profile_builder.py: Profiler.__new__"),("update",PR+"profile_builder.py: BaseProfiler.update_profile, _add"),("encoding",DR+"base_data.py: file_encoding")],"Profiler(Data(file)).report()")
p("C32","Plots show the profile",
 "The missing-values plot draws every cell of every column exactly as the profile records it: nulls in the colour of their kind as given in the legend, values in the background colour, nothing outside the rows. The histogram plot has one panel per numeric column asked for (by name or position, or all), in the order of the profile, titled with its name, with bars equal to the histogram the report gives; other columns are left out and invalid selections are refused.",
 ["inputs","histories"],"every arrangement of nulls in small columns, every selection and order of columns, every small multiset of values",
 "Tests compare one plot's call counts.",
 ["dataprofiler/reports/graphs.py"],[("missing values","dataprofiler/reports/graphs.py: plot_col_missing_values"),("histograms","dataprofiler/reports/graphs.py: plot_histograms, plot_col_histogram")],"patches on the axes")
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
