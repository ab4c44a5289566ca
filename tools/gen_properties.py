#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one place to edit the wording)."""
import json, os
R = "riptable/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[R + f for f in files], state=state or [],
            mechanism=[dict(name=n, where=R + w) for n, w in mech],
            observe_at=observe or ["public API calls and their results"], hook_needed=None)))

prop("C01", "SDS save/load round trip preserves every value, type and label",
 "Whatever Struct, Dataset, nested Struct, Multiset, array, Categorical or date/time array is saved to an SDS file, loading it returns an object of the same kind with the same names in the same order, the same dtypes and classes, bit-identical values (NaN and invalid sentinels included) and the same metadata (categories, base index, ordered flag, invalid category, time zone, labels, footers). This is independent of compression, compression level and the saving or loading options used, and saving never alters the saved object or any other file.",
 ["inputs","configurations"], "every container shape, dtype, class, size (including 0 rows), nesting and save option",
 "The tests save a handful of fixed containers; the cross product of classes, metadata, nesting and options is never sampled.",
 ["rt_sds.py","rt_struct.py","rt_dataset.py","rt_fastarray.py","rt_categorical.py","rt_datetime.py","Utils/rt_metadata.py"],
 [("save_sds / load_sds","rt_sds.py"),("_build_sds_meta_data / _load_from_sds_meta_data per class","rt_struct.py, rt_categorical.py, rt_datetime.py"),("MetaData","Utils/rt_metadata.py")])
prop("C02", "Partial, stacked and sectioned SDS loads equal the same view of full data",
 "Loading only some columns, only some rows (boolean or index filter), only some folders of a nested save, or several files stacked, returns exactly what loading everything and then selecting or concatenating would return, with categorical labels unified and missing columns filled with invalids (an index filter gives the rows in file order; when stacking with an include list, files holding none of the requested columns contribute no rows). Appended sections read back in append order, and file listings report exactly the saved names.",
 ["inputs","configurations","histories"], "every include list, filter, file list, section sequence and combination of them",
 "Tests use fixed files with one option at a time; filters crossing file boundaries, files with differing columns or category sets and option combinations are not reached.",
 ["rt_sds.py","rt_pdataset.py","rt_hstack.py","rt_struct.py"],
 [("load_sds(include, filter, stack, sections, folders)","rt_sds.py"),("stacked categorical merge","rt_sds.py"),("sds_concat","rt_sds.py"),("PDataset partitions","rt_pdataset.py")])
prop("C03", "A Dataset is always rectangular, ordered and all-or-nothing on errors",
 "After any sequence of column operations (add, replace, delete, rename, reorder, move, swap, pop, prefix/suffix, bulk replace, row assignment, lock) a Dataset's columns all have the declared row count, its column order and contents are those of an insertion-ordered mapping with the same edits applied, and operations that raise leave it unchanged. Datasets, copies and source arrays not named in an operation keep their contents.",
 ["histories","inputs"], "every history of column and row edits, including edits that must be rejected",
 "Each test performs one or two edits on one dataset; invariants over long mixed histories and after rejected edits are not checked.",
 ["rt_struct.py","rt_dataset.py","rt_itemcontainer.py"],
 [("column setters and dimension check","rt_dataset.py"),("ItemContainer ordered storage","rt_itemcontainer.py"),("col_* editing family","rt_struct.py")])
prop("C04", "Row selection keeps rows whole: right rows, right order, all columns",
 "Slicing, boolean or fancy indexing, filtering, head/tail, trimming, dropping duplicates, sampling and row iteration on a Dataset return rows that are exact source rows (every column taken from the same source row), exactly the rows requested, in the requested or original order. The same selection gives the same rows whatever mix of column classes (numbers, strings, categoricals, dates) the Dataset holds, and the source is untouched unless in-place was asked for.",
 ["inputs"], "every dataset and every selector form (slice with step, negative, mask, index array, row+column pairs)",
 "Tests index tiny datasets with a few literal selectors and check some columns.",
 ["rt_dataset.py","rt_struct.py","rt_itemcontainer.py","rt_fastarray.py","rt_categorical.py","rt_utils.py"],
 [("__getitem__ / row+col argument parsing","rt_struct.py"),("filter, trim, duplicated, drop_duplicates, sample","rt_dataset.py"),("copy_inplace","rt_itemcontainer.py")])
prop("C05", "Grouping partitions rows exactly by key equality",
 "For any keys (single or multiple, of any supported type) and any filter, grouping assigns two unfiltered rows to the same group if and only if all their keys are equal, gives filtered rows (and rows whose Categorical key is invalid) to no group, treats missing plain keys as equal to each other, and numbers groups consecutively in first-occurrence or sorted order as requested. Group counts, first/last row indices, next/previous links, per-group row lists, the list of unique keys and iteration over groups all describe that same partition.",
 ["inputs","configurations"], "every key tuple, dtype, cardinality, filter and hash/lexical/ordered option",
 "Tests compare a few literal groupings; agreement between the different views of the partition is not checked for arbitrary keys and filters.",
 ["rt_grouping.py","rt_groupby.py","rt_groupbyops.py","rt_groupbykeys.py","rt_numpy.py","rt_categorical.py"],
 [("Grouping ikey/ifirstkey/igroup/ncountgroup","rt_grouping.py"),("groupbyhash, groupbylex, groupbypack, makeifirst ...","rt_numpy.py"),("regroup with filter","rt_grouping.py")])
prop("C06", "Group reductions equal the same function computed per group",
 "count, sum, mean, min, max, first, last, nth, median, mode, quantile, variance, standard deviation and their NaN-skipping forms return, for every group and through every entry point (groupby, categorical, aggregate lists), the value obtained by applying that reduction to that group's unfiltered rows alone, labelled with that group's key and in the requested key order; rows in no group take part in no group's value. Filters, transform mode and selection of columns change only which rows or columns take part.",
 ["inputs","configurations"], "every dtype, key structure, filter, missing-value pattern and entry point",
 "Tests check few shapes against pandas; they do not cross filters, invalids, small integer dtypes, sort options and transform.",
 ["rt_groupbyops.py","rt_groupby.py","rt_grouping.py","rt_groupbykeys.py","rt_categorical.py"],
 [("reduction methods and aggregate","rt_groupbyops.py"),("_calculate_all / result labelling","rt_groupby.py, rt_categorical.py, rt_grouping.py")])
prop("C07", "Group transforms stay aligned with their rows and confined to their group",
 "Cumulative, rolling, shift, diff, rank-count, fill-forward/backward, EMA and transform-mode results have one output per input row, at that row's position, depending only on rows of the same group in row order. Filtered rows affect only the rows documented, and the number of threads or groups never leaks values between groups.",
 ["inputs","configurations"], "every grouping, interleaving of groups, window, limit, filter and dtype",
 "Tests use a few fixed arrays with blocks of groups; interleaved groups with filters, limits and invalids are rarely exercised.",
 ["rt_groupbyops.py","rt_groupby.py","rt_groupbynumba.py","rt_categorical.py","rt_grouping.py"],
 [("cumsum/cumprod/cummin/cummax/cumcount, rolling_*, shift, diff, ema_*","rt_groupbyops.py"),("group fill forward/backward","rt_groupby.py, rt_categorical.py, rt_groupbynumba.py"),("transform","rt_grouping.py")])
prop("C08", "User functions applied per group see exactly that group's rows",
 "apply, apply_reduce and apply_nonreduce call the user function once per non-empty group with exactly that group's rows in original order (an extra call for the rows in no group is allowed), and place each result at that group's key (reduction) or at those rows' positions (non-reduction). Filters, multiple input arrays, extra arguments, dataset versus array inputs and transform do not change this pairing.",
 ["inputs","programs"], "every user function, grouping, filter, argument form and result shape",
 "Tests apply a few lambdas to a few groupings.",
 ["rt_groupbyops.py","rt_grouping.py","rt_categorical.py","rt_groupby.py","rt_dataset.py"],
 [("apply_reduce / apply_nonreduce","rt_groupbyops.py"),("Grouping.apply, apply_helper","rt_grouping.py")])
prop("C09", "A Categorical denotes exactly the values it was built from",
 "A Categorical built from values, from codes with categories, from multiple keys, from a mapping or from another library, with any filter, ordering or base index, expands back to the original values (invalid where filtered or missing), and its codes, categories, length, comparisons, membership tests, sorting, indexing, copying and element assignment agree with the expanded values. Every code is either invalid or refers to an existing category.",
 ["inputs","histories"], "every value array, constructor form, option and sequence of reads and writes",
 "Tests construct specific literals; agreement of all views for arbitrary values and constructor options is not covered.",
 ["rt_categorical.py","rt_grouping.py","rt_enum.py"],
 [("Categorical constructor family","rt_categorical.py"),("comparison, __getitem__, __setitem__","rt_categorical.py"),("Grouping / GroupingEnum","rt_grouping.py")])
prop("C10", "Changing categories never relabels unrelated rows",
 "Adding, removing, replacing, reordering, shrinking, mapping, aligning or stacking categories (including automatic additions, filtering, code mappings and combining Categoricals with different category lists) leaves the label of every row equal to its previous label, except the rows whose label the operation explicitly changes. Removed categories become invalid, categories stay unique, and locked Categoricals reject changes.",
 ["histories","inputs"], "every sequence of category edits and every combination of category lists",
 "Tests do one edit on one literal Categorical.",
 ["rt_categorical.py","rt_grouping.py","rt_algos.py","rt_hstack.py","rt_merge.py"],
 [("category_add/remove/replace, mapping_*","rt_categorical.py"),("shrink, align, hstack, set_valid, map","rt_categorical.py"),("merge_cats, hstack_groupings","rt_grouping.py")])
prop("C11", "Joins return exactly the relational join of the two tables",
 "For left, right, inner and outer joins on any key columns, the result contains exactly one row per matching pair (restricted as the keep options state) plus the unmatched rows the join kind retains, with every value taken from its own source row and missing values invalid. Row order follows the driving table, key columns hold the key value, overlapping names are suffixed as requested, indicators tell which side a row came from, and validation options reject exactly the violating inputs. Filtered or invalid Categorical keys match nothing; keep options keep one row per distinct key.",
 ["inputs","configurations"], "every pair of tables, key type and multiplicity, join kind and option combination",
 "Tests compare several literal tables with pandas; duplicated keys with keep, categorical/date keys, indicator and invalid keys are sparse.",
 ["rt_merge.py","rt_dataset.py","rt_grouping.py","rt_utils.py"],
 [("merge2","rt_merge.py"),("merge_indices, JoinIndices","rt_merge.py"),("merge","rt_merge.py")])
prop("C12", "Lookups fetch the value belonging to the key, or invalid",
 "merge_lookup and the lookup-style align/associate functions return for each row of the left table the value from the right row with the equal key (the first or last one as requested), an invalid when there is none, and never change the left table's rows, their number or their order. In-place and copying forms give the same columns.",
 ["inputs","configurations"], "every pair of tables, key types, duplicates, missing keys, column selections and renames",
 "Tests look up a few literal tables.",
 ["rt_merge.py","rt_dataset.py","rt_utils.py","rt_numpy.py"],
 [("merge_lookup","rt_merge.py"),("alignmk, mbget","rt_utils.py"),("assoc_index, assoc_copy","rt_numpy.py")])
prop("C13", "As-of joins pick the nearest eligible row for every left row",
 "For each left row, an as-of merge takes values from the right row of the same by-group whose time is the latest not after (or earliest not before, or nearest to, ties going backward) the left time (the last of equal times backward, the first forward), honouring exact-match and tolerance settings, and invalid if none qualifies. All left rows appear exactly once in their original order.",
 ["inputs","configurations"], "every pair of sorted tables, tie pattern, by-columns, direction, tolerance and exact-match option",
 "Tests follow the pandas documentation examples.",
 ["rt_merge.py","rt_merge_asof.py","rt_dataset.py"],
 [("merge_asof","rt_merge.py"),("merge_asof2","rt_merge_asof.py")])
prop("C14", "Membership, uniqueness and duplicate tests agree with value equality",
 "ismember, isin, unique, nunique, duplicated, match-index and search functions give exactly the answer that element-by-element equality gives: the member mask is true precisely for values present, the returned index is the first matching position, unique returns each distinct value once in the requested order with correct first index, inverse and counts. This holds for every supported key type and for multi-column keys. A NaN is a member of nothing when tested alone; missing keys equal each other in unique and in multi-column keys.",
 ["inputs"], "every pair of arrays or key tuples, with different dtypes, strings of different widths, NaN and invalids",
 "Tests sample few dtype pairs and cardinalities.",
 ["rt_numpy.py","rt_fastarray.py","rt_categorical.py","rt_utils.py","rt_dataset.py"],
 [("ismember and its dtype/string/categorical dispatch","rt_numpy.py"),("unique","rt_numpy.py"),("isin, duplicated, nunique, between","rt_fastarray.py")])
prop("C15", "Missing values are recognised, propagated and never mistaken for data",
 "Every dtype's invalid value is recognised by isnan/isnotnan and their relatives, survives copying, type conversion between numeric types, concatenation, shifting and selection, propagates through arithmetic that yields floats or date/times, and is skipped by NaN-aware reductions and replaced by fill functions; valid values never turn into invalids through these operations when representable. Scalar and array forms agree for float and date/time values.",
 ["inputs"], "every dtype pair, position and density of missing values",
 "Tests check selected conversions and arrays.",
 ["rt_fastarray.py","rt_numpy.py","rt_enum.py","rt_datetime.py","rt_categorical.py","rt_dataset.py"],
 [("invalid tables","rt_enum.py"),("astype, fill_invalid, copy_invalid, replacena, fillna, isnan family","rt_fastarray.py")])
prop("C16", "Array and Dataset reductions equal their mathematical definition",
 "sum, mean, min, max, argmin, argmax, variance, standard deviation, median, quantiles, counts, any/all and their NaN-skipping forms on arrays and on Datasets (by column, by row or overall) return the value defined over exactly the participating elements, honouring filter, dtype, ddof and axis arguments. Function and method forms agree, and integer accumulation does not overflow narrow inputs (integer sums are exact below 2**53).",
 ["inputs","configurations"], "every dtype, length, missing-value pattern, filter and axis",
 "Tests compare few arrays with numpy.",
 ["rt_numpy.py","rt_fastarray.py","rt_dataset.py","rt_utils.py"],
 [("_reduce dispatch","rt_numpy.py, rt_fastarray.py"),("Dataset.reduce and axis handling","rt_dataset.py"),("quantile/describe","rt_utils.py")])
prop("C17", "Order-dependent array operations use exactly the stated neighbours",
 "shift, diff, differs/transitions, cumulative sum/product/min/max, rolling windows, time windows, EMA and forward/backward fill on arrays give at each position the value computed from exactly the stated preceding or following elements, with invalid where the window reaches outside the array and limits respected. In-place variants modify the array to the same result and copying variants leave the input untouched.",
 ["inputs","configurations"], "every dtype, period (positive, zero, negative, larger than the array), window, limit and missing pattern",
 "Tests use one or two literal arrays per function.",
 ["rt_fastarray.py","rt_fastarraynumba.py","rt_numpy.py","rt_datetime.py"],
 [("shift, diff, rolling_*, timewindow_*","rt_fastarray.py"),("fill_forward/backward, cummin/cummax, ema_decay","rt_fastarraynumba.py")])
prop("C18", "Elementwise, indexing and construction results equal NumPy's",
 "Arithmetic, comparison, logical, rounding, where, putmask, clip, interpolation, mask combination, reshaping, tiling, repeating and array construction on riptable arrays return the values NumPy returns on the same data (apart from documented missing-value handling), and reading or assigning through any integer, slice, boolean or fancy index affects exactly the addressed elements. The result is a riptable array of the documented dtype, and special classes survive operations that keep their meaning. (Integer modulo and floor division follow the kernel where it differs from NumPy; halves may round either way.)",
 ["inputs"], "every dtype pair, shape, stride, length and index form",
 "Tests enumerate some ufuncs on small contiguous arrays.",
 ["rt_fastarray.py","rt_numpy.py","rt_utils.py"],
 [("__array_ufunc__, __array_function__ overrides","rt_fastarray.py"),("where, putmask, interp, mask_*, bool_to_fancy, arange, full, tile, repeat","rt_numpy.py")])
prop("C19", "Sorting yields the sorted, stable permutation and keeps rows together",
 "sort, argsort, lexsort and Dataset sorts (view, in-place and copy, by one or many columns, ascending, descending or per-column) order rows by the key columns in priority order, put missing values last, keep equal rows in their original order (lexsort and Dataset sorts), and permute all columns by the same permutation; Categoricals sort by code. A sorted view shows current data after any later edit of the Dataset, and cached sort orders are never reused for different data.",
 ["inputs","histories"], "every key mix and every history of sorts and edits",
 "Tests sort small literals once; cache reuse after edits is barely touched.",
 ["rt_dataset.py","rt_sort_cache.py","rt_fastarray.py","rt_numpy.py","rt_categorical.py"],
 [("sort_view / sort_inplace / sort_copy","rt_dataset.py"),("SortCache","rt_sort_cache.py"),("lexsort, argsort, issorted","rt_numpy.py")])
prop("C20", "Concatenation places every row of every input, in order, exactly once",
 "Stacking arrays, Categoricals, dates, Datasets or Structs returns the inputs' rows in input order with unchanged values, a common dtype or class able to represent all of them, unified categories and time zones, and invalid fill for columns missing from some inputs. Column-wise concatenation keeps every column and resolves name clashes as asked, and the inputs are left unchanged.",
 ["inputs"], "every list of inputs with differing dtypes, columns, categories, lengths including zero",
 "Tests stack two or three like-typed literals.",
 ["rt_hstack.py","rt_numpy.py","rt_dataset.py","rt_categorical.py","rt_datetime.py","rt_grouping.py"],
 [("hstack_any","rt_hstack.py"),("Dataset.concat_rows / concat_columns","rt_dataset.py"),("hstack per class","rt_categorical.py, rt_datetime.py")])
prop("C21", "Dates, times and time zones agree with the civil calendar",
 "Dates and date-times built from strings, integers, components or Python/NumPy/pandas values denote the right instant for the given time zone including daylight-saving changes, and every calendar field, formatted string, day/week/month start, midnight offset and time-zone conversion read from them equals the proleptic Gregorian calendar with the rules of the supported zones for 1971 to 2037. Array and scalar forms agree, and invalid date-times stay invalid in every numeric field.",
 ["inputs","configurations"], "every instant in the supported range, every time zone, format and input form",
 "Tests check chosen dates; leap years, year ends and the hours around DST changes are sampled sparsely.",
 ["rt_datetime.py","rt_timezone.py"],
 [("TimeZone DST tables","rt_timezone.py"),("Date, DateTimeNano constructors and properties","rt_datetime.py"),("strptime/strftime helpers","rt_datetime.py")])
prop("C22", "Date and time arithmetic is exact and yields the right kind of result",
 "Adding and subtracting dates, date-times, spans and numbers gives the exact calendar difference or instant, with the result class the operands imply (date minus date is a span, date plus span is a date), and meaningless combinations are rejected. Comparisons, min/max, differences, rounding, ranges and conversions between days, hours, seconds and nanoseconds are consistent with that arithmetic, and invalid operands yield invalid results and compare unequal.",
 ["inputs"], "every operand pair of date/time classes, scalars and arrays",
 "Tests list some operand pairs with literal values.",
 ["rt_datetime.py"],
 [("operator overloads and class-preservation tables","rt_datetime.py"),("TimeSpan unit properties, Date.range, resample","rt_datetime.py")])
prop("C23", "Vectorised string functions equal Python's string methods elementwise",
 "Case conversion of ASCII letters, length, search, containment, prefix/suffix, replacement, reversal, substring, splitting at a character, character access, regular-expression match/replace/extract on byte or unicode string arrays (and on Categoricals of strings) return for each element what the corresponding Python string or regular-expression operation returns, regardless of array length, string width, duplicates, embedded or trailing blanks and non-ASCII characters where supported.",
 ["inputs"], "every string array, pattern and argument",
 "Tests apply each function to one literal array.",
 ["rt_str.py","rt_fastarray.py","rt_categorical.py"],
 [("FAString dispatch and kernels","rt_str.py"),("CatString","rt_str.py")])
prop("C24", "Cross-tabulations and their margins account for every row exactly once",
 "An accum over two keys shows in each cell the reduction of exactly the rows with that key pair, in each margin row and column the reduction over all rows of that key, and in the grand total the reduction over all participating rows; filtered or invalid-key rows never appear in the cells or the ordinary margins. Accum tables, ratios and column accumulations combine those cells with correct labels.",
 ["inputs","configurations"], "every pair of key columns, values, filters and reductions",
 "Tests inspect a few literal tables.",
 ["rt_accum2.py","rt_accumtable.py","rt_groupbyops.py","rt_grouping.py"],
 [("Accum2 grouping and make_dataset","rt_accum2.py"),("AccumTable.gen, accum_ratio, accum_cols","rt_accumtable.py")])
prop("C25", "Binning puts every value in exactly the bin that contains it",
 "cut and qcut (and time cutting) assign each value to the one interval that contains it, with the documented open/closed edges, invalid for out-of-range or missing values, labels in bin order, and quantile bins equal to the quantiles of the unfiltered values. Returned bin edges and labels correspond to the codes.",
 ["inputs","configurations"], "every value array, edge list, count, label option and edge closure",
 "Tests check a few literal arrays.",
 ["rt_bin.py","rt_datetime.py","rt_categorical.py"],
 [("cut, qcut, quantile","rt_bin.py"),("cut_time","rt_datetime.py")])
prop("C26", "Conversion to and from NumPy, pandas, Arrow, records and CSV loses nothing",
 "Converting arrays, Categoricals, date/time arrays and Datasets to pandas, Arrow, NumPy matrices, record arrays, dictionaries, lists or row iterables and back returns the same names, order and values, with missing values mapped to missing values and classes restored where the target can represent them. The converted object itself holds the same values at the same positions.",
 ["inputs"], "every dtype, class, missing pattern and option",
 "Tests convert chosen literals.",
 ["rt_dataset.py","rt_fastarray.py","rt_categorical.py","rt_datetime.py","Utils/pandas_utils.py","Utils/conversion_utils.py","rt_csv.py","rt_io.py"],
 [("to_pandas/from_pandas","rt_dataset.py, Utils/pandas_utils.py"),("to_arrow/from_arrow","rt_fastarray.py, rt_categorical.py, rt_datetime.py"),("from_rows, as_matrix, as_recordarray","rt_dataset.py")])
prop("C27", "Operations never modify their inputs and copies never share data",
 "No function or method modifies its array, Categorical, Dataset or option arguments, or any other object, unless it is documented as in-place (grouping may lock a Categorical; category tables are shared and immutable); a deep copy shares no storage with its original, and in-place operations change only their target. Displaying, printing or describing an object never changes it.",
 ["inputs","programs","histories"], "every public operation and every argument it accepts",
 "Tests look at results, almost never at the inputs afterwards.",
 ["rt_fastarray.py","rt_dataset.py","rt_categorical.py","rt_numpy.py","rt_merge.py","rt_groupbyops.py","rt_struct.py","rt_display.py"],
 [("copy / deep copy","rt_struct.py, rt_dataset.py, rt_categorical.py"),("inplace flags","rt_fastarray.py, rt_dataset.py")])
prop("C28", "Results do not depend on threads, array recycling, size or repetition",
 "Repeating an operation, running it with worker threads on or off, with array recycling on or off, after arbitrary other non-mutating operations on the same objects, or on data split so that small-array and large-array code paths are used gives the same result. No result ever aliases memory that is later reused for another array.",
 ["schedules","configurations","histories"], "every operation, worker-thread and recycling setting, history of earlier calls and array size",
 "Tests run each operation once on small arrays in one configuration.",
 ["rt_fastarray.py","rt_numpy.py","rt_groupbyops.py","rt_grouping.py","rt_groupbynumba.py","rt_sort_cache.py"],
 [("Threading, Recycle controls","rt_fastarray.py"),("size-dependent dispatch","rt_numpy.py, rt_grouping.py")])
prop("C29", "Reshaping rearranges cells without losing, inventing or moving values",
 "Melt, pivot (which refuses duplicate key pairs), transpose, one-hot encoding, matrix views, column/row apply, jagged and tagged row construction and Dataset-level elementwise operations produce cells that correspond one-to-one to the source cells they document, with keys and labels matching and missing combinations invalid. Converting back where an inverse exists restores the source.",
 ["inputs"], "every dataset shape, column mix and option",
 "Tests reshape a few literal datasets.",
 ["rt_dataset.py","rt_imatrix.py","rt_categorical.py","rt_struct.py"],
 [("melt, pivot, transpose, one_hot_encode, imatrix_make, apply_rows/cols","rt_dataset.py"),("from_jagged_rows, from_tagged_rows","rt_dataset.py")])
prop("C30", "Nested containers keep every item reachable under its own name",
 "Structs and Multisets of any nesting keep each item under its name and path: item and attribute access, selection by list, pattern or slice, renaming, moving, flattening and unflattening, copying, comparing, searching and stacking agree with a plain ordered tree of the same items. Equality holds exactly when all names and values are equal. The datasets of a Multiset all have the same number of rows.",
 ["inputs","histories"], "every tree of items and every sequence of container operations",
 "Tests use one or two fixed Structs.",
 ["rt_struct.py","rt_multiset.py","rt_itemcontainer.py","rt_hstack.py"],
 [("flatten / flatten_undo, key_search, col_* on Struct","rt_struct.py"),("Multiset cascade and flatten","rt_multiset.py")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
