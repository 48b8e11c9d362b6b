"""Writes /verif/properties.jsonl (the text of the properties lives here)."""
import json
import os

RT = "src/coinflip/_randtests/"
P = []


def add(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if observe:
        a["observe_at"] = observe
    if state:
        a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    a["hook_needed"] = None
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))


# ------------------------------------------------------------ all the tests
add("A01", "Input gate: exactly two distinct values, long enough, nothing missing",
    "Every statistical test accepts a sequence if and only if it holds exactly two distinct "
    "values, none of them missing (None/NaN/NaT/NA), and is at least as long as the test's "
    "minimum (8 for frequency within block, 4 for matrix rank and Maurer's universal, 2 for the "
    "others). Otherwise it raises the documented error: the non-binary error for the values, or "
    "else the minimum-input error, which carries the actual and the required length; longest runs "
    "below 128 bits and a universal blocksize above 16 raise the not-implemented error. No "
    "accepted sequence makes a test raise anything else with default parameters, and the "
    "spectral test alone may also reject an odd sequence which is constant without its last value.",
    ["inputs"], "all sequences of any length, values, containers and missing-value markers",
    "The tests try a handful of hand-written sequences; which inputs are rejected, and how, is a "
    "claim about every input.",
    [RT + "common/core.py", RT + "common/exceptions.py", RT + "runs.py", RT + "universal.py"],
    [("randtest decorator", RT + "common/core.py:randtest"),
     ("MinimumInputError", RT + "common/core.py"),
     ("NonBinarySequenceError, TestNotImplementedError", RT + "common/exceptions.py")],
    ["coinflip.randtests.*"])
P[-1]["statement"] = (
    "With default parameters every statistical test accepts a sequence if and only if it holds "
    "exactly two distinct values, none of them missing (None/NaN/NaT/NA), and is at least as long "
    "as the test's minimum: 8 for frequency within block, 4 for matrix rank and Maurer's "
    "universal, 2 for the others. Otherwise it raises the non-binary error for the values, or "
    "else the minimum-input error (which carries the actual and the required length), and never "
    "any other exception. Only longest runs below 128 values and a universal blocksize above 16 "
    "(not-implemented error), and the spectral test on an odd sequence which is constant without "
    "its last value (non-binary error), reject otherwise acceptable input.")

add("A02", "Results do not depend on how the two values are represented",
    "A test's statistics, p-values, parameters and failed recommendations depend only on the "
    "positions of the two values, where the larger value is heads: relabelling the values "
    "order-preservingly (ints, floats, strings, bools, bytes, timestamps, ...) or passing the "
    "same values in another container (list, tuple, numpy array, pandas Series of any index or "
    "dtype, iterator-free array-likes) changes nothing but the reported heads and tails faces.",
    ["inputs"], "all binary sequences, all order-preserving relabellings, all array-like containers",
    "The tests use int lists and Series with default indices; an index-, dtype- or label-dependent "
    "path is reached by none of them.",
    [RT + "common/core.py", RT],
    [("conversion to a positional Series", RT + "common/core.py:randtest"),
     ("infer_faces", RT + "common/core.py:infer_faces")],
    ["coinflip.randtests.*"])

add("A03", "Tests are pure: no history, no mutation, no shared state",
    "The outcome of a call of a statistical test is a function of its own arguments: it is the "
    "same whatever calls (of any test, on any sequence, successful or failing) were made before "
    "it in the process, and calling a test never alters the sequence it was given nor a result "
    "returned earlier.",
    ["histories"], "all finite histories of calls in one process",
    "Unit tests check single calls; caches, shared mutable defaults and in-place edits only show "
    "across particular successions of calls.",
    [RT + "common/collections.py", RT + "common/core.py", RT + "matrix.py", RT],
    [("no in-place operations on the input", RT + "common/core.py:randtest"),
     ("lru_cache keyed by intervals and key", RT + "common/collections.py:find_closest_interval")],
    ["coinflip.randtests.*"])

add("A07", "Calls may overlap: what runs at the same time does not matter",
    "Calls of the statistical tests, and renderings of their results as text, which run at the same "
    "time in several threads of a process, give, however their steps interleave, the outcomes "
    "(results, texts, errors) which each of them gives alone, and leave the sequences they were "
    "given, which they may share, as they were.",
    ["schedules"], "all interleavings of the steps of finitely many calls (of any tests and parameters)",
    "The tests make one call at a time; working state which is shared between calls is only visible "
    "when another call starts between its uses.",
    [RT, RT + "common/result.py", RT + "common/collections.py"],
    [("working state is local to calls", RT + "complexity.py, matrix.py, template.py, universal.py"),
     ("text is written into a console of its own", RT + "common/result.py:BaseTestResult.__str__")],
    ["coinflip.randtests.*"])

add("A08", "Results are values: compared, copied and read like their contents",
    "Results of the statistical tests compare equal exactly if they are of the same kind and all "
    "their contents (faces, failed recommendations, statistics, p-values, parameters, counts, ...) "
    "are equal, so that they can be looked for in lists; copies, deep copies and pickled ones equal "
    "their original and print the same; editing a result changes neither other results nor "
    "deep copies and pickled ones. The statistics and pvalues of a result of several are those of its "
    "sub-results in order, and its min is the first of least p-value. The errors of tests survive "
    "copying and pickling with their type, text and fields.",
    ["histories", "inputs"], "all histories of calls, copies and edits of results of any test and sequence",
    "The tests look at single results, one at a time, and never compare or copy them.",
    [RT + "common/result.py", RT + "common/core.py", RT],
    [("BaseTestResult, TestResult, MultiTestResult", RT + "common/result.py"),
     ("contents of each result", RT + "*.py"), ("errors", RT + "common/exceptions.py, core.py")],
    ["==, !=, in, index, copy, pickle of results; statistics, pvalues, min"])

add("A04", "Every reported p-value is a real number in [0, 1]",
    "Every statistic and every p-value of every result (and sub-result) of an accepted call is a "
    "finite real number, and every p-value lies within 0 and 1, also for degenerate sequences "
    "such as alternating, nearly constant, perfectly balanced or very short ones.",
    ["inputs"], "all accepted sequences and parameters of all 15 tests",
    "The examples of the tests are well-behaved; NaN, overshoot and infinities come from corner "
    "sequences.",
    [RT, "src/coinflip/randtests.py"],
    [("clamps of p-values and statistics", RT + "random_walk.py, entropy.py, serial.py")],
    ["coinflip.randtests.*"])

add("A05", "Failed recommendations are exactly the violated ones, warned about once",
    "The failures listed in a result are exactly the NIST recommendations of that test which the "
    "call's sequence length and parameters in effect violate, each evaluated as it reads (for "
    "example 'n >= 100' is listed if and only if the sequence is shorter than 100). Exactly one "
    "UserWarning which names all of them is raised if there are any, and none otherwise.",
    ["inputs"], "all lengths and parameters of all 15 tests",
    "No test asserts on failures or warnings beyond a few lengths; boundaries of each inequality "
    "are not sampled.",
    [RT + "common/core.py", RT],
    [("check_recommendations", RT + "common/core.py:check_recommendations"),
     ("recommendation tables of each test", RT + "*.py")],
    ["result.failures", "warnings"])

add("A06", "Given parameters are honoured; omitted ones take the documented defaults",
    "A parameter passed to a test (blocksize, matrix dimensions, template size, matches ceiling, "
    "number of initial blocks, direction) is the one the test runs with, whichever other "
    "parameters are given or omitted. An omitted one takes the default which is determined by the "
    "sequence length (and the given parameters) alone, as SP800-22's tables and the documentation "
    "give it, and the default is usable for every accepted sequence length.",
    ["inputs", "configurations"], "all sequence lengths and all combinations of given parameters",
    "The tests pass all parameters or none for a few lengths; most length classes and partial "
    "combinations are never run.",
    [RT + "frequency.py", RT + "matrix.py", RT + "template.py", RT + "universal.py",
     RT + "complexity.py", RT + "serial.py", RT + "entropy.py", RT + "runs.py",
     "src/coinflip/randtests.py"],
    [("default tables", RT + "universal.py, runs.py, complexity.py"),
     ("default formulas", RT + "frequency.py, template.py, serial.py, entropy.py, matrix.py"),
     ("pass-through", "src/coinflip/randtests.py")],
    ["coinflip.randtests.*"])

# ------------------------------------------------------------ each of the tests
SWHY = ("The examples of SP800-22 are about one sequence per test; an off-by-one at a block "
        "boundary, a wrong class or a wrong constant in a rare class passes them.")
SQ = "all binary sequences, and all parameters with at least one whole block"


def stat(id, title, statement, file, mech):
    add(id, title, statement, ["inputs"], SQ, SWHY, [RT + file, "src/coinflip/randtests.py"],
        mech, ["coinflip.randtests"])


stat("S01", "Frequency tests compute the SP800-22 2.1 and 2.2 results",
     "For every binary sequence of n values, the monobit statistic is |#heads - #tails| / sqrt(n) "
     "with p = erfc(statistic / sqrt 2). Frequency within block splits the sequence into "
     "floor(n/M) whole blocks of M values, discards the remainder, and its statistic is 4M times "
     "the sum of (share of heads - 1/2)^2, with p = Q(blocks/2, statistic/2). The counts reported "
     "in the results are the actual ones.",
     "frequency.py", [("monobit, frequency_within_block", RT + "frequency.py")])
stat("S02", "Runs tests compute the SP800-22 2.3 and 2.4 results",
     "For every binary sequence, the runs statistic is the number of maximal runs of equal values "
     "and p = erfc(|V - 2 n pi (1-pi)| / (2 sqrt(2n) pi (1-pi))), without a prior monobit check. "
     "Longest runs takes the first N blocks of M values (M, N = 8, 16 from n = 128; 128, 49 from "
     "6272; 10000, 75 from 750000), classifies each block by its longest run of heads, and reports "
     "the chi-square of these classes against SP800-22's probabilities, and its p-value.",
     "runs.py", [("runs, longest_runs, asruns", RT + "runs.py")])
stat("S03", "Matrix rank test and GF(2) rank are right for every matrix",
     "The public matrix rank algorithm returns the rank over GF(2) of every binary matrix of any "
     "shape. The binary matrix rank test splits the sequence row by row into floor(n/QM) matrices "
     "of Q rows and M columns, counts those of full rank, of one less, and of any lower rank, and "
     "reports the chi-square against 0.2888, 0.5776 and 0.1336 with 2 degrees of freedom.",
     "matrix.py", [("matrix_rank, binary_matrix_rank", RT + "matrix.py")])
stat("S04", "Spectral test computes the SP800-22 2.6 result",
     "For every binary sequence of n values (its last one dropped from the transform if n is "
     "odd), the spectral test counts how many of the first half of the DFT components of the +1/-1 "
     "sequence have a modulus below sqrt(n ln(1/0.05)), expects 0.95 n / 2 of them, and reports the "
     "difference divided by sqrt(n 0.95 0.05 / 4) and p = erfc(|statistic| / sqrt 2).",
     "fourier.py", [("spectral", RT + "fourier.py")])
stat("S05", "Non-overlapping template test computes the SP800-22 2.7 result",
     "For every binary sequence, template size m and blocksize M, the non-overlapping test reports "
     "for each of the 2^m templates the number of matches in each of the floor(n/M) blocks, where "
     "the scan of each template examines every position and moves past a match by m, "
     "independently of the other templates. Its statistic is the sum over the blocks of "
     "(matches - mean)^2 / variance, mean = (M-m+1)/2^m, variance = M (1/2^m - (2m-1)/2^2m), and "
     "p = Q(blocks/2, statistic/2).",
     "template.py", [("non_overlapping_template_matching", RT + "template.py")])
stat("S06", "Overlapping template test computes the SP800-22 2.8 result",
     "For every binary sequence, template size m, blocksize M and ceiling K of matches, the "
     "overlapping test counts in each of the floor(n/M) blocks the windows of m heads, tallies the "
     "blocks by 0, 1, .., K-1 and at least K matches, and reports the chi-square against the "
     "probabilities with eta = (M-m+1)/2^(m+1) of SP800-22 3.8 with K degrees of freedom.",
     "template.py", [("overlapping_template_matching", RT + "template.py")])
stat("S07", "Maurer's universal test computes the SP800-22 2.9 result",
     "For every binary sequence, blocksize L (1 to 16) and number Q of initial blocks, the "
     "universal statistic is the mean over the remaining K = floor(n/L) - Q whole blocks of log2 "
     "of the distance to the last earlier block (initial ones included) of the same pattern, or to "
     "position 0 if there is none. Its p-value is erfc(|statistic - mean| / sqrt(2 variance)) with "
     "the mean and variance tabulated for L.",
     "universal.py", [("maurers_universal", RT + "universal.py")])
stat("S08", "Linear complexity is the shortest LFSR, and its test is right",
     "The public Berlekamp-Massey algorithm returns for every bit sequence the length of the "
     "shortest linear feedback shift register which produces it (0 for all zeros). The linear "
     "complexity test computes it for each of the floor(n/M) blocks, puts T = (-1)^M (L - mu) + "
     "2/9 into the nearest of the classes -3..3, and reports the chi-square against SP800-22's "
     "class probabilities with 6 degrees of freedom.",
     "complexity.py", [("berlekamp_massey, linear_complexity", RT + "complexity.py")])
stat("S09", "Serial test computes the SP800-22 2.11 result",
     "For every binary sequence and blocksize m, the serial test counts all overlapping patterns "
     "of m, m-1 and m-2 values in the sequence taken as a ring, and reports the first and second "
     "differences of psi^2, with p-values Q(2^(m-2), first/2) and Q(2^(m-3), second/2); psi^2 of "
     "size 0 or less is 0.",
     "serial.py", [("serial", RT + "serial.py")])
stat("S10", "Approximate entropy test computes the SP800-22 2.12 result",
     "For every binary sequence of n values and blocksize m, the approximate entropy test counts "
     "all overlapping patterns of m and m+1 values in the sequence taken as a ring, and reports "
     "2n (ln 2 - (phi_m - phi_m+1)), where phi is the sum of the relative counts times their "
     "logarithms, with p = Q(2^(m-1), statistic/2).",
     "entropy.py", [("approximate_entropy", RT + "entropy.py")])
stat("S11", "Cumulative sums test computes the SP800-22 2.13 result",
     "For every binary sequence, the cusum statistic is the largest distance from 0 of the walk "
     "which steps +1 for heads and -1 for tails, started from the sequence's end when reversed; "
     "its p-value is the one of SP800-22 2.13.5 with both sums over the whole ranges of k, kept "
     "within 0 and 1.",
     "random_walk.py", [("cusum", RT + "random_walk.py")])
stat("S12", "Random excursions tests compute the SP800-22 2.14 and 2.15 results",
     "For every binary sequence, the walk is cut into cycles at its returns to 0 (the final, "
     "possibly empty, stretch counts as a cycle). Random excursions reports for each state x of "
     "-4..-1, 1..4 the chi-square of the numbers of cycles with 0, 1, .., 4 and at least 5 visits "
     "of x against SP800-22's probabilities; the variant reports for each of -9..-1, 1..9 its "
     "total visits and p = erfc(|visits - J| / sqrt(2J (4|x| - 2))), J the number of cycles.",
     "random_walk.py", [("random_excursions, random_excursions_variant", RT + "random_walk.py")])

add("S13", "The reference implementation agrees with the tests",
    "For every sequence of 0s and 1s and every set of parameters, each function of the reference "
    "implementation returns the same statistics and p-values, in the same order, as SP800-22 "
    "prescribes and as the corresponding statistical test reports.",
    ["inputs"], "all sequences of 0s and 1s with all their parameters, for all 15 tests",
    "The tests compare them on the SP800-22 examples only, where both can be wrong alike or "
    "right by luck.",
    ["src/coinflip/randtests_refimpl.py", "src/coinflip/randtests.py"],
    [("15 functions", "src/coinflip/randtests_refimpl.py")], ["coinflip.randtests_refimpl.*"])

# ------------------------------------------------------------ containers
add("D01", "Bins is a map on fixed intervals which rounds every key to the nearest",
    "A Bins holds a value for each interval it was made with (0 at first; repeated intervals are "
    "an error), lists them in ascending order, and reads or writes the one nearest to any real "
    "key, the larger one on a tie. Deleting an existing interval adds its value to the one then "
    "nearest to it, so that the total is preserved; deleting any other key, and any access to an "
    "emptied Bins, is a KeyError.",
    ["histories", "inputs"], "all histories of reads, writes and deletions, on all sets of intervals",
    "The tests run a few fixed operations; the state after arbitrary histories is not sampled.",
    [RT + "common/collections.py"],
    [("Bins._roundkey, find_closest_interval", RT + "common/collections.py:Bins")],
    ["coinflip.collections.Bins"], [("_sdict", "interval to value", RT + "common/collections.py")])
add("D02", "FloorDict looks up the greatest key not above the given one",
    "A FloorDict returns for every key the value of the greatest of its own keys which is not "
    "larger, and raises KeyError if there is none (or it is empty). Its keys, in ascending order, "
    "its length and its values are those of the mapping it was made from, and lookups never "
    "change them.",
    ["histories", "inputs"], "all mappings with comparable keys, and all lookups",
    "The tests look up three keys in one mapping.",
    [RT + "common/collections.py"], [("FloorDict.__getitem__", RT + "common/collections.py")],
    ["coinflip.collections.FloorDict"])
add("D03", "defaultlist behaves as a list which is padded with defaults on demand",
    "After any history of reads, writes, slices, insertions and deletions, a defaultlist holds "
    "what a plain list would which is first extended with default values as far as an index past "
    "its end requires: reading or writing past the end grows it, deletions and slice replacements "
    "shift the later elements as in a list, and no other element is lost, duplicated or moved. An "
    "index below minus its length is an IndexError, and a replacement of an extended slice by "
    "another number of values a ValueError, both of which leave it as it was.",
    ["histories"], "all finite histories of operations with any indices and slices",
    "The tests run fixed short histories; sparse positions, slices and deletions interact only in "
    "longer ones.",
    [RT + "common/collections.py"],
    [("_determine_srange, _actualise_index, _delete", RT + "common/collections.py:defaultlist")],
    ["coinflip.collections.defaultlist"],
    [("_ddict", "index to value, gaps are defaults", RT + "common/collections.py")])

# ------------------------------------------------------------ command line
CLI = "src/coinflip/cli/"
add("L01", "Data files are read value by value, bit by bit, without loss",
    "The run command tests exactly the sequence in its file: for text, one value per non-blank "
    "line, in order, equal lines being equal values, and different numbers (as integers, or else as double-precision floats) different ones; with --binary, 8 values per byte from the "
    "most significant bit, for any bytes. The sequence stored with the results is that sequence, "
    "however long the file is.",
    ["inputs"], "all text files with one value per line, and all binary files",
    "The tests read short files of a few fixed values.",
    [CLI + "parsing.py", CLI + "commands.py"],
    [("parse_text, parse_binary", CLI + "parsing.py")], ["coinflip run, stored results"])
add("L02", "run executes every test once, in order, and keeps exactly the successes",
    "The run command runs each of the 15 tests once, in their documented order, prints a section "
    "with the result or the error of each, and a test which cannot run stops neither the others "
    "nor the storing of the results. The results file holds precisely the results of the tests "
    "which succeeded, in that order, equal to those of calling the tests directly on the sequence. "
    "It is the file given as OUT or else one which the command names, and another one for runs of "
    "different seconds. example-run prints the same for the generated sequence, of one test or all.",
    ["inputs", "fault_sequences"], "all sequences, hence all subsets of tests which fail",
    "The tests run one sequence and check the exit code.",
    [CLI + "commands.py", CLI + "runner.py"],
    [("run_all_tests", CLI + "runner.py:run_all_tests"), ("run", CLI + "commands.py:run")],
    ["coinflip run: output, results file"])
add("L03", "Stored results are read back and printed as they were",
    "What the read command prints for a results file is what the run which wrote it printed: the "
    "same sequence, the same section with the same contents for each test which succeeded, in the "
    "same order, and a summary with the same verdicts for these. Reading or reporting a file "
    "never alters it, and can be repeated with the same outcome; a run to an existing OUT "
    "replaces it.",
    ["histories", "inputs"], "all histories of run, read and report commands on all sequences",
    "The tests check exit codes of single commands.",
    [CLI + "report.py", CLI + "commands.py", CLI + "runner.py"],
    [("store_results, load_results", CLI + "report.py"),
     ("print_results", CLI + "runner.py")], ["coinflip read, report"])
add("L04", "Invalid data is refused: an error, a nonzero exit, and nothing written",
    "If the data is not a binary sequence (empty, one or more than two distinct values, missing "
    "values, several columns, undecodable text, constant bits), the run command prints an error, "
    "exits with a nonzero status without a traceback, and leaves OUT as it was before. The same "
    "holds for example-run when its sequence is not binary or the single chosen test cannot run; "
    "on every binary sequence run exits with 0.",
    ["inputs", "configurations"], "all data files, lengths and options",
    "The tests try two invalid files.",
    [CLI + "commands.py", CLI + "parsing.py", CLI + "runner.py"],
    [("error handling", CLI + "commands.py"), ("validation", CLI + "parsing.py")],
    ["exit status, output and files of the commands"])
add("L05", "The summary gives each test the right verdict",
    "In the summary which run, example-run and read print, every single-result test has a row "
    "with its p-value to three decimals and PASS if and only if the p-value is at least 0.01, "
    "else FAIL; a test which could not run has a dash and N/A. Tests with several results are "
    "listed as not summarisable, and no test is missing or listed twice.",
    ["inputs"], "all results of all tests, also ones at the significance level",
    "No test inspects the summary.",
    [CLI + "runner.py"], [("print_results_summary", CLI + "runner.py"), ("SIGLEVEL", CLI + "runner.py")],
    ["output of run, example-run, read"])
add("L06", "The printed sequence is the sequence",
    "The sequence printed by the commands shows each of its values in order with one character "
    "each: for every sequence of at most 12 printed rows, reading the rows yields the whole "
    "sequence; for longer ones the first four and last four rows are shown and the number of "
    "omitted rows is exact. Heads and tails are shown with distinct characters.",
    ["inputs", "configurations"], "all sequences, and all terminal widths of at least 40 columns",
    "No test inspects the printed sequence.",
    [CLI + "pprint.py", RT + "common/pprint.py"],
    [("pretty_sequence", CLI + "pprint.py"), ("determine_rep", RT + "common/pprint.py")],
    ["output of run, example-run, read"])
add("R01", "Printed results state the actual numbers",
    "The text of a result states its statistic (to one decimal) and p-value (to three), the "
    "parameters of the test, and for every class or face the expected and actual counts and their "
    "difference (to one decimal), as they are in the result object, faces being printed literally. "
    "For tests with several results it states the statistic and p-value of each sub-result to "
    "three decimals in the object's order, marks exactly one, the first with the least p-value "
    "(which is also the object's minimum), and states that one's details. It lists exactly the "
    "failed recommendations of the object.",
    ["inputs"], "all results of all tests, for all faces",
    "The tests render results without looking at the text.",
    [RT + "common/result.py", RT + "common/pprint.py", RT],
    [("_pretty_result, min", RT + "common/result.py"), ("_render of each result", RT + "*.py")],
    ["str(result)"])
add("G01", "The example generators produce the bits they define",
    "The Mersenne generator yields for every seed the successive states of the multiplicative "
    "congruential generator x -> 16807 x mod (2^31 - 1) as 1 exactly when the state is at least "
    "half the modulus, never ends, and keeps no state outside its instance; the Python generator "
    "yields only 0s and 1s and never ends. example-run tests the first LENGTH values of the chosen "
    "generator.",
    ["inputs", "histories"], "all seeds, and all interleavings of reads from several generators",
    "The tests do not read the generators.",
    ["src/coinflip/generators.py", CLI + "commands.py"],
    [("Mersenne.__next__, Python.__next__", "src/coinflip/generators.py"),
     ("example_run", CLI + "commands.py")], ["coinflip.generators"])

add("R02", "Charts show the data",
    "Every chart which a result offers shows the data: the counts of both faces (plot_counts), the "
    "number of blocks by their count of heads, by their longest run, by rank, by template matches "
    "and by variance, each beside its expected number where there is one, the counts of patterns of "
    "both sizes, every position of the random walk in the direction of the test, and the magnitude "
    "of every frequency with the threshold. No class is missing, shown twice or with another number. "
    "The reference distribution which plot_refdist draws is the one which the p-value is of, with "
    "the right degrees of freedom in its title and in its densities, and its highlighted tail "
    "begins at the statistic.",
    ["inputs"], "all sequences of up to 5000 values (a limit of altair), parameters and faces",
    "The tests only call a few of the plots.",
    [RT + "common/result.py", RT],
    [("plot_refdist, plot_chi2_dist", RT + "common/result.py"), ("plot_* of each result", RT + "*.py")],
    ["the Vega-Lite specification, to_dict(), of each chart"])
add("R03", "Report documents say what the results are",
    "The report command writes a document of exactly the results which the given file holds at "
    "the time: every result either has its section, in order, or a warning that there is none; the "
    "monobit section reads as both faces literally (more frequent first), the actual difference, "
    "length, statistic (to two decimals) and p-value (to three), whatever characters the faces have, "
    "and embeds the chart of counts and of the reference distribution once each. The command leaves "
    "the results file and other documents as they were, replaces OUT completely, and opens the very "
    "document.",
    ["inputs", "histories"], "all results, faces, file names, and orders of storing and reporting",
    "No test reads a report.",
    ["src/coinflip/cli/report.py", "src/coinflip/templates/index.html",
     "src/coinflip/templates/randtests/monobit.html", "src/coinflip/cli/commands.py"],
    [("write_report_doc", "src/coinflip/cli/report.py"), ("report", "src/coinflip/cli/commands.py"),
     ("templates", "src/coinflip/templates/")],
    ["files which coinflip report writes"])
add("P01", "Progress is monotonic, in turns, and completes",
    "While a test runs with a progress context, the progress of its bar never decreases nor exceeds "
    "its total, and equals it when the test is over (in a whole run also if it cannot run); in a whole run the "
    "tests take turns in their order, every one of them yields exactly one outcome, and a bar "
    "only moves during its own test. The presence of a progress context changes neither results nor "
    "errors.",
    ["inputs", "histories", "configurations"], "all sequences and parameters; single calls and whole runs",
    "The tests never look at progress.",
    [RT + "common/core.py", RT, CLI + "runner.py"],
    [("ctx of each test", RT + "*.py"), ("run_all_tests", CLI + "runner.py")],
    ["the progress context which tests are given; the bars of coinflip.cli.runner"])

if __name__ == "__main__":
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P))
