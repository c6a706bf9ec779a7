#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long texts stay reviewable)."""
import json, os
G = "genex/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    g = lambda f: f if f.startswith(("cli/", "pygenex/")) else G + f
    a = {"files": [g(f) for f in files], "mechanism": [{"name": n, "where": g(w)} for n, w in mech],
         "observe_at": observe or [], "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": g(w)} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Point-wise distances equal their published formulas",
  "For two series of equal length, the euclidean, manhattan, chebyshev, cosine and sorensen distances return exactly the value of their defining formula: root mean square difference, mean absolute difference, largest absolute difference, dot product over the product of norms, and sum of absolute differences over sum of absolute sums. They are symmetric, give the same value for a sub-sequence as for a series holding the same values on its own, and series of different lengths are refused with the library's exception.",
  ["inputs"], "every pair of series (lengths 0/1 up to the bound, every value assignment from the grid, negative and fractional values included), every metric, every sub-sequence offset",
  "Tests compare a handful of fixed vectors; the statement is for every value assignment, offset and length pair.",
  ["distance/Distance.hpp", "distance/Euclidean.hpp", "distance/Manhattan.hpp", "distance/Chebyshev.hpp", "distance/Cosine.hpp", "distance/Sorensen.hpp", "distance/Distance.cpp"],
  [("init/reduce/norm accumulation loop", "distance/Distance.hpp"), ("name to function table", "distance/Distance.cpp")],
  observe=["GenexAPI::distanceBetween", "getDistanceFromName(name)(a, b, INF, ...)"])

p("C02", "Warped distance is the optimum over all alignments inside the band",
  "For the euclidean, manhattan and chebyshev warped distances, the value is the minimum over all monotone alignments of the two series that pair first with first and last with last and never pair positions further apart than the warping band allows, combined and normalised as documented; it is infinite exactly when no such alignment exists. The value is symmetric, is zero for identical series, and never gets larger when the band ratio grows.",
  ["inputs", "configurations"], "every pair of series up to the length bound (unequal lengths and length 1 included), every value assignment from the grid, every warping band ratio in [0,1]",
  "Tests check a few hand-computed matrices at one or two ratios; optimality quantifies over all alignments of all inputs.",
  ["distance/Distance.hpp", "distance/Distance.cpp", "distance/Euclidean.hpp", "distance/Manhattan.hpp", "distance/Chebyshev.hpp"],
  [("dynamic programme over the cost matrix", "distance/Distance.hpp warpedDistance"), ("band size from ratio", "distance/Distance.cpp calculateWarpingBandSize")],
  observe=["GenexAPI::distanceBetween(..., \"*_dtw\")", "GenexAPI::setWarpingBandRatio"])

p("C03", "A reported matching is a legal alignment that realises the distance",
  "Whenever the warped distance is finite, the matching reported for two series starts at the first pair, ends at the last pair, moves forward by one step in one or both series at a time, and only pairs positions inside the warping band. Accumulating the metric along that matching gives exactly the warped distance reported for the same two series, for every warped metric that has a defined value on the input.",
  ["inputs", "configurations"], "every pair of series up to the length bound, every grid value assignment, every band ratio, all five warped metrics",
  "Existing tests look at two fixed matchings; ties and narrow bands, where the trace-back can leave the optimal path, are never exercised.",
  ["distance/Distance.hpp", "GenexAPI.cpp"], [("trace-back through the normalised cost matrix", "distance/Distance.hpp warpedDistance")],
  observe=["GenexAPI::matchingBetween"])

p("C04", "Early abandoning never changes an answer that matters",
  "With any abandon limit, a distance function returns either the exact distance, or infinity in a case where the exact distance is larger than the limit (equality judged up to floating-point rounding). This holds for every sum- or maximum-based point-wise and warped metric and for the accelerated euclidean distance that similarity queries use, so a search that keeps the best distance seen so far as its limit cannot lose a better candidate.",
  ["inputs", "configurations"], "every pair of series up to the bound, every grid value assignment, every limit (including exactly equal to the distance, zero and infinity), every band ratio",
  "Tests use one generous and one tiny limit; the dangerous limits are the ones equal or just next to a partial sum.",
  ["distance/Distance.hpp", "distance/Distance.cpp", "distance/Euclidean.hpp"], [("dropout comparison", "distance/Distance.hpp"), ("inverse normalisation of the limit", "distance/Euclidean.hpp inverseNorm"), ("lower-bound cascade", "distance/Distance.cpp cascadeDistance")],
  observe=["dist_t(a, b, dropout, matching)", "cascadeDistance"])

p("C05", "Lower bounds never exceed the warped distance they prune with",
  "Each pruning bound for the euclidean warped distance is at most the warped distance of the same two series under the same band, in both argument orders and with any abandon limit. The accelerated distance that uses them returns the same value as the plain warped distance when nothing is abandoned.",
  ["inputs", "configurations"], "every pair of series (equal and unequal lengths) up to the bound, every grid value assignment, every band ratio, every limit",
  "A bound that is too large silently drops true matches; fixed examples cannot show it is a bound.",
  ["distance/Distance.cpp", "TimeSeries.cpp", "lib/trillionDTW.cpp"], [("endpoint bound", "distance/Distance.cpp kimLowerBound"), ("envelope bound", "distance/Distance.cpp keoghLowerBound"), ("cross bound", "distance/Distance.cpp crossKeoghLowerBound")],
  observe=["kimLowerBound", "keoghLowerBound", "crossKeoghLowerBound", "cascadeDistance"])

p("C06", "Envelopes are the sliding minimum and maximum of the current values",
  "The lower and upper envelope of a series for a band are, at every position, the minimum and maximum of the series' current values within band distance of that position. Asking again with another band, after adding another series to this one, after copying or after assigning gives the envelope of what the series holds at that moment.",
  ["inputs", "histories"], "every series up to the length bound, every grid value assignment, every band, every short sequence of envelope requests, additions, copies and assignments",
  "Only one envelope of one vector is tested; the monotone queue and the cached copy go wrong only for particular orderings of values and operations.",
  ["TimeSeries.cpp", "lib/trillionDTW.cpp", "lib/deque.cpp"], [("lemire monotone deque", "lib/trillionDTW.cpp lower_upper_lemire"), ("envelope cache", "TimeSeries.cpp getKeoghLower/getKeoghUpper")],
  state=[("cached envelope", "valid flag and band the cache was computed for", "TimeSeries.hpp")], observe=["TimeSeries::getKeoghLower", "TimeSeries::getKeoghUpper"])

p("C07", "Grouping places every sub-sequence in exactly one group",
  "After grouping, every sub-sequence of length two up to the longest series (only the longest length when whole-series grouping is requested) is a member of exactly one group of its length, no group has other members, and group sizes add up to the number of sub-sequences. The number of groups returned equals the number of groups present, also when series have different lengths or the dataset is grouped again.",
  ["inputs", "configurations", "histories"], "every dataset up to the size bound (equal and unequal series lengths, every grid value assignment), every metric, thresholds, both grouping modes, regrouping",
  "Tests check total counts on one data file; membership of each sub-sequence is never inspected.",
  ["group/LocalLengthGroupSpace.cpp", "group/GlobalGroupSpace.cpp", "group/Group.cpp", "GroupableTimeSeriesSet.cpp"],
  [("nearest-representative assignment", "group/LocalLengthGroupSpace.cpp generateGroups"), ("linked membership map", "group/Group.cpp addMember")],
  state=[("membership map", "for each (series, start) the previous member of its group", "group/Group.hpp")],
  observe=["GenexAPI::groupDataset", "GenexAPI::saveGroupsOld"])

p("C08", "Group members stay within half the similarity threshold",
  "Each group is represented by one of its own members, and every member's point-wise distance to the representative is at most half the grouping threshold. A sub-sequence starts a new group only if no representative existing at that time was within half the threshold, and otherwise joins a nearest one.",
  ["inputs", "configurations"], "every dataset up to the size bound, every grid value assignment, every grid threshold (including 0 and values exactly on a distance), metrics euclidean, manhattan, chebyshev",
  "The guarantee search accuracy rests on; tests only compare group counts for one threshold.",
  ["group/LocalLengthGroupSpace.cpp", "group/Group.cpp"], [("threshold comparison", "group/LocalLengthGroupSpace.cpp generateGroups")],
  observe=["GenexAPI::groupDataset", "GenexAPI::saveGroupsOld"])

p("C09", "Multi-threaded grouping gives the single-threaded result",
  "For every number of worker threads and every interleaving of them, grouping finishes and yields the same number of groups, the same members in each group and the same answers to queries as grouping with one thread. No two workers access the same memory without synchronisation while at least one of them writes it.",
  ["schedules", "inputs", "configurations"], "every interleaving of the pool's synchronisation operations (bounded preemptions), 2-3 threads, datasets up to the size bound",
  "A test run observes one interleaving; lost work, lost wake-ups and data races need particular ones.",
  ["group/GlobalGroupSpace.cpp", "lib/ThreadPool.hpp", "distance/Distance.hpp", "group/LocalLengthGroupSpace.cpp"], [("task queue with condition variable", "lib/ThreadPool.hpp"), ("one task per length", "group/GlobalGroupSpace.cpp groupMultiThreaded")],
  observe=["GenexAPI::groupDataset(numThreads > 1)"])

p("C10", "Best match is a real sub-sequence with its true distance",
  "A best-match query returns a sub-sequence that exists in the target dataset together with the exact warped distance between the query and it. That distance is never larger than the distance from the query to the representative of any group whose length is reachable within the band, and with threshold zero it is the smallest distance over all reachable sub-sequences.",
  ["inputs", "configurations"], "every grouped dataset up to the size bound, every query (from the same or another dataset, any legal start and end), every grid value assignment, thresholds, band ratios and metrics",
  "Tests run four fixed queries; pruning, dropout ties and length traversal interact only for particular values.",
  ["group/GlobalGroupSpace.cpp", "group/LocalLengthGroupSpace.cpp", "group/Group.cpp", "distance/Distance.cpp"],
  [("length traversal order", "group/GlobalGroupSpace.cpp generateTraverseOrder"), ("best group then best member", "group/GlobalGroupSpace.cpp getBestMatch")], observe=["GenexAPI::getBestMatch"])

p("C11", "k-best results are distinct, real, correctly scored and ordered",
  "A k-best query returns min(k, number of sub-sequences of reachable lengths) results, all different sub-sequences of the target dataset, each with its exact warped distance to the query, in ascending order of distance. A request with non-positive k or with fewer examined candidates than k is refused with the library's exception.",
  ["inputs", "configurations"], "every grouped dataset up to the size bound, every query, every k and number of examined candidates including more than exist, thresholds, band ratios",
  "Tests ask for a k that is always available; duplicates, padding and mis-scored results show only at other sizes.",
  ["GroupableTimeSeriesSet.cpp", "group/GlobalGroupSpace.cpp", "group/LocalLengthGroupSpace.cpp", "group/Group.cpp"],
  [("sum-k group heap", "group/LocalLengthGroupSpace.cpp interLevelKSim"), ("member selection", "group/Group.cpp intraGroupKSim")], observe=["GenexAPI::getKBestMatches"])

p("C12", "k-best is exact when everything is examined and keeps nearest groups",
  "When the number of examined candidates covers all reachable sub-sequences, the k-best distances are exactly the k smallest warped distances. For a smaller budget, no group is left out that has a representative closer to the query than the representative of a group that contributed a result. Within a group no member is passed over for a more distant one.",
  ["inputs", "configurations"], "every grouped dataset up to the size bound, every query, every k and examined-candidate budget, thresholds",
  "The heap's removal loop and its leftover budget are exercised on one dataset only.",
  ["group/GlobalGroupSpace.cpp", "group/LocalLengthGroupSpace.cpp", "group/Group.cpp", "GroupableTimeSeriesSet.cpp"],
  [("keep removing the furthest group while k candidates remain", "group/LocalLengthGroupSpace.cpp interLevelKSim")], observe=["GenexAPI::getKBestMatches"])

p("C13", "Exhaustive search returns exactly the k nearest sub-sequences",
  "Exhaustive k-best search returns min(k, number of sub-sequences of length at least two) distinct sub-sequences with their exact warped distances in ascending order, and no sub-sequence left out is closer than one returned. Non-positive k and unknown metrics are refused with the library's exception.",
  ["inputs", "configurations"], "every dataset up to the size bound (unequal lengths included), every query, k, metric (euclidean, manhattan, chebyshev), band ratio",
  "Tests compare against a precomputed list for one dataset.",
  ["TimeSeriesSet.cpp", "distance/Distance.hpp"], [("bounded max-heap with dropout", "TimeSeriesSet.cpp getKBestMatchesBruteForce")], observe=["GenexAPI::getKBestMatchesBruteForce"])

p("C14", "Normalisation maps the whole dataset onto [0,1] and reports its range",
  "Normalising a dataset replaces every value by (value - min) / (max - min) over the whole dataset, ignoring nothing and touching nothing outside the series, and returns the old minimum and maximum; a constant dataset becomes all zeros. Afterwards the dataset is reported as normalised, and lengths, names and counts are unchanged; normalising an empty dataset is refused.",
  ["inputs"], "every dataset up to the size bound, unequal lengths, negative and constant values",
  "One dataset is tested; padding of short rows, negative ranges and constants are not.",
  ["TimeSeriesSet.cpp"], [("min/max scan and rescale", "TimeSeriesSet.cpp normalize")], observe=["GenexAPI::normalizeDataset", "GenexAPI::getTimeSeries", "GenexAPI::getDatasetInfo"])

p("C15", "Loading reproduces the table in the file, or fails cleanly",
  "A loaded dataset holds exactly the rows of the file (at most the requested maximum), each with the values, the length and the name found in it after skipping the leading columns asked for, whichever of the separators are used and also when rows have different lengths. A file that cannot be opened or contains fields that do not begin with a number or numbers out of range is refused, as is a negative starting column, with the library's exception and leaves no dataset behind; loading again into the same object leaves nothing of the old content.",
  ["inputs", "histories", "configurations"], "every text up to the size bound over an alphabet of digits, separators, letters and newlines, every row limit, starting column, name-column flag and separator set, repeated loads",
  "Tests load five well-formed files.",
  ["TimeSeriesSet.cpp", "GenexAPI.cpp"], [("two-pass tokenising loader", "TimeSeriesSet.cpp loadData")], state=[("lengths, names, data", "per-row lengths and names, flat value table", "TimeSeriesSet.hpp")],
  observe=["GenexAPI::loadDataset", "GenexAPI::getTimeSeries", "GenexAPI::getTimeSeriesName", "GenexAPI::getTimeSeriesLength", "GenexAPI::getDatasetInfo"])

p("C16", "Saving a dataset and loading it back preserves it",
  "Loading a file written by saving a dataset gives the same number of series, the same names, the same lengths and the same values, to full precision, for any separator that does not occur in the names or numbers.",
  ["inputs", "configurations"], "every dataset up to the size bound, values that need many digits, with and without names, unequal lengths",
  "One integer-valued dataset is saved in tests and never reloaded value by value.",
  ["TimeSeriesSet.cpp"], [("text writer", "TimeSeriesSet.cpp saveData"), ("text reader", "TimeSeriesSet.cpp loadData")], observe=["GenexAPI::saveDataset", "GenexAPI::loadDataset"])

p("C17", "Saved groups restore the same grouping",
  "Loading a group file into a dataset with the same content restores the same groups with the same members and representatives, the same distance name, threshold and group count, and every query gives the same answer as before saving (up to the choice between equally distant sub-sequences). Saving what was loaded produces a file that restores the same grouping again.",
  ["inputs", "configurations", "histories"], "every dataset up to the size bound, metrics, thresholds, both grouping modes, save/load repeated, with another grouping in place before the load",
  "Tests compare group counts and one query for the default mode.",
  ["group/GlobalGroupSpace.hpp", "group/LocalLengthGroupSpace.hpp", "group/Group.hpp", "GroupableTimeSeriesSet.hpp", "IO.hpp"], [("archive save/load", "group/GlobalGroupSpace.hpp")], observe=["GenexAPI::saveGroups", "GenexAPI::loadGroups"])

p("C18", "The text group format restores the same grouping",
  "Loading a group file in the older text format restores the same groups, members, representatives, distance name, threshold and group count that were saved, and every query gives the same answer as before (up to the choice between equally distant sub-sequences). The sizes-only variant lists, per length, the sizes of all groups.",
  ["inputs", "configurations", "histories"], "every dataset up to the size bound, metrics, thresholds, both grouping modes",
  "Tests reload one file and look at the number of groups.",
  ["group/GlobalGroupSpace.cpp", "group/LocalLengthGroupSpace.cpp", "group/Group.cpp", "GroupableTimeSeriesSet.cpp"], [("text save/load", "group/Group.cpp saveGroupOld/loadGroupOld")], observe=["GenexAPI::saveGroupsOld", "GenexAPI::loadGroupsOld"])

p("C19", "A group file that does not fit the dataset changes nothing",
  "Loading groups saved for a dataset with a different number of series or with sub-sequences the target does not have or has in addition, or from a file that cannot be opened, is refused with the library's exception in both formats. The dataset keeps the groups, settings and query answers it had before the attempt.",
  ["inputs", "configurations", "fault_sequences"], "every pair of dataset shapes up to the bound, grouped or ungrouped target, both formats, missing file, wrong version",
  "Tests try one mismatch on an ungrouped dataset.",
  ["GroupableTimeSeriesSet.hpp", "GroupableTimeSeriesSet.cpp", "IO.hpp"], [("dimension check before reset", "GroupableTimeSeriesSet.hpp load")], observe=["GenexAPI::loadGroups", "GenexAPI::loadGroupsOld"])

p("C20", "Block averages are exact for every sub-sequence and block size",
  "The block-averaged form of a sub-sequence has one value per block of the requested size counted from the start of the sub-sequence, each the mean of the values in that block, the last block possibly shorter. A block size of one or less than one value per block is respectively the identity and refused.",
  ["inputs", "configurations"], "every dataset up to the size bound (unequal lengths), every block size, every start and end",
  "The block-average tests are commented out except for one fixed example.",
  ["PAAWrapper.cpp", "TimeSeries.cpp"], [("cached averages per offset", "PAAWrapper.cpp generatePAAMatrix"), ("left-over block", "PAAWrapper.cpp getPAA")], observe=["PAAWrapper::getPAA", "GenexAPI::preparePAA"])

p("C21", "Search on block averages returns the k nearest averaged sub-sequences",
  "k-best search on a prepared dataset returns min(k, number of sub-sequences) distinct real sub-sequences in ascending order of the warped distance between block-averaged query and block-averaged sub-sequence, and leaves out none that is closer. Before preparation, after the dataset was unloaded, or with non-positive k it is refused with the library's exception.",
  ["inputs", "configurations", "histories"], "every dataset up to the size bound, block size, query, k, metric; prepare / unload / reload sequences",
  "No active test calls it.",
  ["PAAWrapper.cpp", "GenexAPI.cpp"], [("bounded max-heap over averaged series", "PAAWrapper.cpp getKBestMatchesPAA"), ("wrapper table per dataset name", "GenexAPI.cpp preparePAA")], observe=["GenexAPI::preparePAA", "GenexAPI::getKBestMatchesPAA"])

p("C22", "The dataset registry reflects exactly the loads and unloads made",
  "After any sequence of load, unload and unload-all calls, successful or refused, the registry lists exactly the datasets loaded and not unloaded, with their current metadata, and the count matches. Names already in use and unknown names are refused with the library's exception without any effect, and nothing computed for an unloaded dataset is used for a later dataset of the same name.",
  ["histories", "fault_sequences"], "every sequence of up to the bound of load / unload / unload-all / group / prepare / query calls over two names, with failing loads in between",
  "Tests use one fixed sequence without failures in the middle.",
  ["GenexAPI.cpp"], [("name checks", "GenexAPI.cpp _checkDatasetName"), ("registry maps and counter", "GenexAPI.cpp")], state=[("registry", "loaded datasets, block-average wrappers, counter", "GenexAPI.hpp")],
  observe=["GenexAPI::loadDataset", "GenexAPI::unloadDataset", "GenexAPI::unloadAllDataset", "GenexAPI::getDatasetCount", "GenexAPI::getAllDatasetInfo"])

p("C23", "Out-of-range requests are refused, never answered or fatal",
  "Any request naming a series, a position range, a length or a data point that does not exist is refused with the library's exception and changes nothing, and any request within range succeeds. This holds for series access, names, lengths, distances, matchings, block averages and queries, including queries too long or too short to be compared with any grouped length, which are refused.",
  ["inputs", "configurations", "fault_sequences"], "every dataset shape up to the bound, every index, start and end in and around the legal range, grouped in either mode or not",
  "Tests try single out-of-range values per call; boundaries per row of uneven data and queries without a reachable group are not.",
  ["TimeSeriesSet.cpp", "TimeSeries.cpp", "GenexAPI.cpp", "group/GlobalGroupSpace.cpp", "PAAWrapper.cpp"], [("range checks", "TimeSeriesSet.cpp getTimeSeries"), ("index check", "TimeSeries.cpp operator[]")],
  observe=["GenexAPI::getTimeSeries", "GenexAPI::getTimeSeriesName", "GenexAPI::getTimeSeriesLength", "GenexAPI::distanceBetween", "GenexAPI::matchingBetween", "GenexAPI::getBestMatch"])

p("C24", "Series behave as values: copying, assigning, comparing, adding",
  "A copy or assignment of a series has the same length, identity, position and values as its source, stays valid and unchanged when the source is changed or destroyed if the source owned its values, and self-assignment changes nothing. Two series are equal exactly when they have the same length and the same values; adding adds value by value and is refused for different lengths; the average is the mean.",
  ["inputs", "histories"], "every pair of series (owning or referring to a dataset, any offsets and lengths up to the bound), every grid value assignment, every assignment direction",
  "Tests construct and compare two equal-length series; assignments between different lengths or kinds are not tried.",
  ["TimeSeries.cpp", "TimeSeries.hpp"], [("ownership flag and deep copy", "TimeSeries.cpp operator=")], state=[("ownership flag", "whether the series frees its values", "TimeSeries.hpp")], observe=["TimeSeries"])

p("C25", "A refused grouping request leaves a usable dataset",
  "Grouping with an unknown distance, a non-positive number of threads, or before data is loaded is refused with the library's exception. Afterwards the dataset is either as it was before or plainly ungrouped: it is never reported as grouped without having groups, queries either work or are refused, and a later valid grouping gives the normal result.",
  ["fault_sequences", "histories", "inputs"], "every sequence of valid and invalid grouping calls, queries and saves up to the bound, on every small dataset",
  "One test checks that the exception is thrown, none what is left behind.",
  ["GroupableTimeSeriesSet.cpp", "group/GlobalGroupSpace.cpp"], [("reset before regrouping", "GroupableTimeSeriesSet.cpp groupAllLengths")], observe=["GenexAPI::groupDataset", "GenexAPI::getDatasetInfo"])

p("C26", "Progress reporting and elapsed time never affect grouping",
  "Grouping gives the same groups and terminates normally whatever the clock shows while it runs, however small or large the dataset is.",
  ["inputs", "fault_sequences"], "every clock reading at each time it is consulted, every dataset size from one series upward",
  "Tests finish within the ten seconds before progress is first reported.",
  ["group/LocalLengthGroupSpace.cpp"], [("log interval", "group/LocalLengthGroupSpace.cpp generateGroups")], observe=["GenexAPI::groupDataset"])

p("C27", "Repeated computations do not influence one another",
  "Computing a distance, a matching or a query answers the same whatever was computed before it, and keeps no memory per computation once its result is released.",
  ["histories", "inputs"], "every sequence of distance, matching and query calls up to the bound, every grid value assignment",
  "Tests never repeat a call and look at its footprint.",
  ["distance/Distance.hpp", "distance/Distance.cpp", "distance/Cosine.hpp", "distance/Sorensen.hpp"], [("per-cell accumulators released after use", "distance/Distance.hpp warpedDistance")], observe=["GenexAPI::distanceBetween", "GenexAPI::matchingBetween"])

p("C28", "Prompt commands apply every argument in its documented place",
  "A command typed at the prompt of the command-line program does what its help text says: every argument, including each optional trailing one and what is assumed when it is left out, takes effect in its documented position, the printed answer is that of the corresponding library operation, and afterwards exactly the datasets, values and groupings exist that this operation leaves behind. A command with fewer or more arguments than documented, or with only half of a position range, is refused with its help text and changes nothing.",
  ["inputs", "configurations"], "every command, every number of arguments from one too few to one too many, small numbers in every position, every grid value assignment of the data",
  "No existing test runs the command-line program at all.",
  ["cli/GenexCLI.cpp", "cli/Command.hpp"], [("argument positions and defaults of each command", "cli/GenexCLI.cpp MAKE_COMMAND"), ("argument count checks", "cli/GenexCLI.cpp tooFewArgs, tooManyArgs")],
  observe=["text printed by genexcli", "files written by genexcli"])

p("C29", "The prompt answers every line and ends only when asked to",
  "Whatever line is entered - blank, comment, unknown command, wrong, missing or non-numeric arguments, unknown datasets, requests the library refuses - the command-line program answers it (blank lines and comments silently), changes nothing when it reports an error, and goes on with the next line. The session ends exactly on quit, exit, or an end of input that is confirmed; memory is used correctly throughout, and commands are timed exactly while the timer is on.",
  ["inputs", "fault_sequences"], "every short line of printable characters, every command with combinations of valid and invalid arguments, every sequence of answers to the end-of-input confirmation up to the bound",
  "No existing test runs the command-line program; the number of lines is unbounded.",
  ["cli/GenexCLI.cpp"], [("line splitting and dispatch", "cli/GenexCLI.cpp processLine"), ("error handling around a line", "cli/GenexCLI.cpp main"), ("confirmation of the end of input", "cli/GenexCLI.cpp wantToQuitByEOF")],
  observe=["text printed by genexcli", "when genexcli exits"])

p("C30", "The Python module answers as the library does",
  "Every function of the Python module performs the library operation its documentation names with each argument in its documented position, and returns the library's answer in the documented form (numbers, names, lists, pairs, dicts with the documented keys). Optional arguments mean the same whether given by position or by their names, and those left out take their default: blank-separated columns, all rows, all columns, no name column, whole series, euclidean distance, one thread, every length. What the library refuses reaches the caller as an exception, and the module goes on working with the same datasets.",
  ["inputs", "configurations"], "every function of the module, every number of optional arguments given by position or by name, small numbers in every position, every grid value assignment of the data",
  "No existing test builds or calls the Python module.",
  ["pygenex/GENEXBindings.cpp"], [("argument names and defaults", "pygenex/GENEXBindings.cpp BOOST_PYTHON_MODULE"), ("conversion of results", "pygenex/GENEXBindings.cpp candidateTimeSeriesToPythonDict, timeSeriesToPythonList")],
  observe=["return values and exceptions of the functions of pygenex"])

p("C31", "The worker pool runs every task once and returns its result",
  "Every task handed to the worker pool runs exactly once, whatever the workers' timing, and has run by the time its result is available or the pool has been destroyed; tasks still waiting when the pool is destroyed, and tasks handed on by tasks before that, are not lost. The result, or the exception, of each task reaches exactly the caller who holds its future, also after the pool is gone. The pool neither blocks forever nor accesses shared data without synchronisation.",
  ["schedules", "inputs"], "every interleaving of workers and caller up to the bound, every choice of failing task and of the moment the results are asked for",
  "Existing tests only group small datasets with threads and see one schedule per run; lost wake-ups and lost tasks depend on the order of a few operations.",
  ["lib/ThreadPool.hpp"], [("queue, condition and stop flag", "lib/ThreadPool.hpp ThreadPool"), ("waiting for the workers", "lib/ThreadPool.hpp ~ThreadPool")],
  observe=["ThreadPool::enqueue and the futures it returns", "destruction of the pool"])

p("C32", "A damaged or cut short group file is refused and changes nothing",
  "Loading a group file of which the end is missing, of which an entry is not a number or does not match the dataset, or whose groups do not contain each sub-sequence of the dataset exactly once, is refused with the library's exception, and the dataset keeps the groups, settings and query answers it had. Whenever loading succeeds, every sub-sequence of the grouped lengths belongs to exactly one group.",
  ["crash_points", "inputs"], "every dataset up to the bound, grouped or not, every place at which the file may end, every entry of the file replaced by every value of a set of small, negative, huge and unreadable ones, both formats",
  "Tests only load whole files; how loading fails depends on which entry is the last one or the damaged one, and some damage shows only in later queries.",
  ["group/Group.cpp", "group/LocalLengthGroupSpace.cpp", "group/GlobalGroupSpace.cpp", "GroupableTimeSeriesSet.cpp", "IO.hpp"],
  [("reading of members", "group/Group.cpp loadGroupOld"), ("reading of the groups of a length", "group/LocalLengthGroupSpace.cpp loadGroupsOld"), ("header", "GroupableTimeSeriesSet.cpp loadGroupsOld")],
  observe=["GenexAPI::loadGroups", "GenexAPI::loadGroupsOld", "GenexAPI::getDatasetInfo", "answers of the searches"])

p("C33", "Files that cannot be written or read completely are reported",
  "A save of a dataset or of groups that returns normally has written a complete file, from which the same data is restored; when the file cannot be written to the end the library's exception is thrown and what is held in memory is unaffected. A load during which reading fails is refused with the library's exception and leaves nothing behind. Once the fault is gone the same operation succeeds.",
  ["fault_sequences", "inputs"], "every dataset up to the bound, every amount of room on the disk and every position of a read error up to the bound, on the first or the second reading of the file, for each save and load operation",
  "Tests have no way to make a write or read fail at a chosen byte; errors that only appear when a stream is flushed or closed pass unnoticed.",
  ["TimeSeriesSet.cpp", "GroupableTimeSeriesSet.cpp", "IO.hpp"],
  [("writing of series", "TimeSeriesSet.cpp saveData"), ("writing of groups", "GroupableTimeSeriesSet.cpp saveGroupsOld"), ("compressed archive", "IO.hpp saveToFile"), ("reading of series", "TimeSeriesSet.cpp loadData")],
  observe=["GenexAPI::saveDataset", "GenexAPI::loadDataset", "GenexAPI::saveGroups", "GenexAPI::loadGroups", "GenexAPI::saveGroupsOld", "GenexAPI::loadGroupsOld"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
