"""Single source of properties.jsonl and MANIFEST.json.

Run `python3 tools/props.py` in /verif after editing."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def p(pid, title, statement, over, text, why, files, mech, state=(),
      observe=()):
    return dict(
        id=pid, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(
            files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=None))


PROPS = [
 p("C01", "Every event line becomes exactly one faithful row",
   "Parsing a text trace gives, for every requested event, exactly one row per "
   "line of that event, in file order, and no row for any other line. The row "
   "carries the line's timestamp, task name, pid, cpu and position, and each "
   "key=value field under its name: integers in any base as integers, everything "
   "else (spaces included) as the text; fields a line does not have are missing "
   "in its row. Lines that are not events are skipped without any effect on the "
   "rows.",
   ["inputs"], "every well-formed text trace: any task names, pids, cpus, tgid and "
   "irq-flag columns, clock formats, field sets and values, order of events and "
   "interleaved non-event lines",
   "the tests parse a dozen fixed lines and four sample traces; the claim is over "
   "every combination of header shape, field set and value",
   ["trappy/ftrace.py", "trappy/base.py", "trappy/dynamic.py"],
   [("header regex and line loop", "trappy/ftrace.py SPECIAL_FIELDS_RE, __populate_data"),
    ("field splitting and integer casting", "trappy/base.py generate_data_dict, string_cast_int"),
    ("frame creation", "trappy/base.py create_dataframe")],
   [("per-event arrays", "lines collected before the frame is built", "trappy/base.py Base")],
   ["the data frame of each event"]),
 p("C02", "Row times are unique and keep the order of the file",
   "Across all the events of one trace no two rows have the same time and ordering "
   "the rows by time gives the order of the lines in the file back, whether times "
   "are normalised or not. A recorded time that is later than everything before it "
   "is kept as recorded; a repeated or earlier one is moved to the next "
   "representable value that keeps the order.",
   ["inputs"], "every sequence of positive recorded timestamps, with ties and backward steps, "
   "in all clock formats, over any selection of events",
   "two tests use one pair of equal timestamps each; runs of ties, ties across "
   "events and ties combined with normalisation are not reached",
   ["trappy/ftrace.py", "trappy/base.py"],
   [("timestamp bumping", "trappy/ftrace.py __populate_data"),
    ("normalisation", "trappy/bare_trace.py _normalize_time, trappy/base.py normalize_time")],
   [], ["index of the data frames"]),
 p("C03", "Windows and normalisation select and shift exactly",
   "Parsing with time windows keeps exactly the rows whose recorded time lies in "
   "the intersection of the relative window (counted from the first event of the "
   "trace) and the absolute window, both ends included and open ends unbounded. "
   "Normalising subtracts the time of the first event of the file from every row, "
   "whatever the window and the selected events. The duration of the trace is "
   "the latest minus the earliest time of the rows that were kept.",
   ["inputs", "configurations"], "every trace, every pair of windows (ends on, between "
   "and outside event times, zero or open) and both settings of normalisation",
   "the tests try four windows on one trace; the corners where both windows are "
   "given, or an end is zero or exactly on an event, are not covered",
   ["trappy/ftrace.py", "trappy/bare_trace.py"],
   [("window intersection", "trappy/ftrace.py _calc_max_window"),
    ("slicing", "trappy/ftrace.py _windowify_class"),
    ("duration", "trappy/bare_trace.py get_duration")],
   [("basetime", "time of the first event", "trappy/ftrace.py GenericFTrace")],
   ["data frames", "get_duration()"]),
 p("C04", "The on-disk cache never changes what a parse returns",
   "Opening a trace with caching on gives the same rows, times, values, value types, "
   "metadata, start and end as opening it with caching off, whatever was opened "
   "before: other events, windows, scopes, orders, changed trace contents, deleted "
   "or removed parts of the cache. The cache stores the whole trace independently "
   "of the window and normalisation used when it was written.",
   ["histories", "inputs"], "every sequence of opens (events, scope, window, "
   "normalisation), trace rewrites, cache file deletions and corruptions over "
   "generated traces with arbitrary values",
   "the tests follow a handful of two-step histories on one trace with plain "
   "integer fields",
   ["trappy/ftrace.py", "trappy/base.py"],
   [("cache validation and load", "trappy/ftrace.py _load_cache, _is_cache_valid"),
    ("cache update", "trappy/ftrace.py _update_cache"),
    ("serialisation", "trappy/base.py write_csv, read_csv")],
   [("cache directory", "one file per event and metadata", "trappy/ftrace.py _trace_cache_path")],
   ["data frames of later opens"]),
 p("C05", "A crash or I/O error while caching never corrupts later opens",
   "If the process dies or a file operation fails at any point while the cache is "
   "read or written, the open either finishes with correct data or, if it was "
   "killed, leaves a cache from which every later open still returns the same data "
   "as without a cache. An error in writing the cache is a warning, never a failure "
   "of the open, and opening never changes the trace file.",
   ["crash_points", "fault_sequences"], "every file-system operation of the cache as "
   "kill point or failing operation, every truncation of every cache file, and "
   "every sequence of opens after it",
   "one test makes the directory read-only; no test interrupts a write",
   ["trappy/ftrace.py", "trappy/base.py"],
   [("cache update", "trappy/ftrace.py _update_cache"),
    ("cache load", "trappy/ftrace.py _load_cache")],
   [("cache directory", "files present after a crash", "trappy/ftrace.py")],
   ["data frames of later opens"]),
 p("C06", "Array fields expand to one column per element",
   "A field whose value is a brace-enclosed list becomes one column per element, "
   "named after the field with the element's index; every row of the event that has "
   "the field gets as many elements as the longest list of that field in the trace, "
   "the missing ones being 0. An empty list adds no column and does not disturb the "
   "other fields of its line.",
   ["inputs"], "every trace with any number of array fields of any lengths in any "
   "lines and positions, mixed with plain fields and lines without arrays",
   "the tests use two lines with one array each at a fixed position",
   ["trappy/base.py", "trappy/ftrace.py"],
   [("array lengths", "trappy/base.py __get_trace_array_lengths"),
    ("explosion", "trappy/base.py trace_parser_explode_array"),
    ("empty array removal", "trappy/ftrace.py __populate_data")],
   [], ["data frame columns"]),
 p("C07", "Built-in event formats are decoded field by field",
   "Each built-in event's lines give its documented columns with the values printed "
   "in the trace: scheduler switches split into the previous and next task with task "
   "names of spaces and punctuation kept whole, cpu frequency, capacity and idle events "
   "keep their documented column names with the special idle value read as -1, masks "
   "of scheduler groups are shown with eight digits, the task list of the load "
   "events has each (task, pid) once, clock, file-sync, system-call and "
   "function(-graph) tracer lines follow their own formats.",
   ["inputs"], "every field value the kernel formats can print, including task names "
   "with spaces, '-', '/' and ':', negative and hexadecimal numbers",
   "the tests check one sample line of each of a few events",
   ["trappy/sched.py", "trappy/idle.py", "trappy/common_clk.py", "trappy/filesystem.py",
    "trappy/raw_syscalls.py", "trappy/function.py", "trappy/function_graph.py",
    "trappy/thermal.py", "trappy/pid_controller.py"],
   [("line preprocessing", "trappy/sched.py SchedSwitch.create_dataframe and others"),
    ("raw syscalls", "trappy/raw_syscalls.py SysEnter, SysExit")],
   [], ["data frames of the built-in events"]),
 p("C08", "User markers and systrace files keep every annotation",
   "Lines printed by user space that no other requested event claims are collected "
   "as markers, one row per line with the full text of the message, and the begin, "
   "end and counter annotations of a systrace are split into event, pid, function "
   "and data; lines claimed by a requested event never appear among the markers. A systrace "
   "HTML file gives the same rows as the plain trace it embeds.",
   ["inputs", "configurations"], "every marker text outside the array notation, every mix of marker kinds, with "
   "and without an event that claims some of the markers, in text or HTML form",
   "the tests parse one systrace sample and three marker lines",
   ["trappy/fallback.py", "trappy/systrace.py", "trappy/ftrace.py"],
   [("fallback parser", "trappy/fallback.py FallbackEvent, trappy/ftrace.py __get_trace_class"),
    ("systrace parsing", "trappy/systrace.py")],
   [], ["data frames"]),
 p("C09", "Scopes, events and registration decide exactly what is parsed",
   "A trace object exposes exactly the events of its scope, the registered user "
   "events of that scope and the requested events, each under its own name; events "
   "registered later or unregistered earlier are seen or not seen by the next open "
   "accordingly. Requesting an event by its name or its trace word gives the parser "
   "that is already known, unknown ones get a new parser, and event words that "
   "contain each other are refused.",
   ["histories", "configurations"], "every history of registering, unregistering and "
   "opening with any scope and event list",
   "the tests register one or two events and open once",
   ["trappy/ftrace.py", "trappy/dynamic.py", "trappy/bare_trace.py"],
   [("registry", "trappy/ftrace.py register_parser, unregister_parser, __add_events"),
    ("type factory", "trappy/dynamic.py DynamicTypeFactory, register_dynamic_ftrace"),
    ("filters", "trappy/bare_trace.py get_filters")],
   [("class tables", "events of each scope", "trappy/ftrace.py GenericFTrace")],
   ["attributes and class definitions of the trace object"]),
 p("C10", "Opening a path finds the right file and leaves no litter",
   "A path that is a file or a directory resolves to the documented trace: a binary "
   "trace is preferred and is converted by the external report tool, otherwise the text trace "
   "is used, and anything else is an error naming the path. Binary and text versions "
   "of the same trace give the same rows, events that need raw output are requested "
   "raw from the tool, and no temporary file is left behind and no input is modified, "
   "even if the tool or the parse fails. The number of cpus and the version in the "
   "file header are reported, with or without a cache.",
   ["configurations", "fault_sequences", "inputs"], "every combination of present files, path "
   "spellings, tool outcomes and header lines",
   "most of the tests of this path need the external tool and do not run here",
   ["trappy/ftrace.py"],
   [("path resolution", "trappy/ftrace.py FTrace.__process_path"),
    ("conversion", "trappy/ftrace.py FTrace.__generate_trace_txt, _parsing_teardown"),
    ("metadata", "trappy/ftrace.py __get_trace_metadata")],
   [], ["data frames", "files on disk", "tool arguments"]),
 p("C11", "Callbacks see every row once, in trace order",
   "Applying callbacks to a set of events calls each event's function exactly once "
   "for each of its rows, in the order of the lines in the trace across all the "
   "events. Each call receives every column of the row by name and the time, with "
   "the row's own values.",
   ["inputs"], "every interleaving of events, any subset of them with callbacks, events "
   "without rows, any column names",
   "one test merges two events in a fixed interleaving",
   ["trappy/ftrace.py"],
   [("merge", "trappy/ftrace.py apply_callbacks")], [], ["sequence of callback calls"]),
 p("C12", "User-built traces expose what was added",
   "Adding frames to a bare trace makes each of them available unchanged under its "
   "name, with its pivot, listed among the events, and a name that is in use is refused "
   "without changing anything. Filtering the event names returns exactly those "
   "containing the key, and the duration spans the earliest to the latest time of "
   "all the frames that have rows.",
   ["histories", "inputs"], "every sequence of additions of frames of any shape, and "
   "every filter key",
   "the tests add one or two frames",
   ["trappy/bare_trace.py", "trappy/dynamic.py"],
   [("addition", "trappy/bare_trace.py add_parsed_event"),
    ("duration", "trappy/bare_trace.py get_duration")],
   [], ["attributes of the trace", "get_duration()", "get_filters()"]),
 p("C13", "De-duplicating an index keeps all rows in order",
   "Removing duplicates from a sorted time index returns the same rows in the same "
   "order with a strictly increasing index, in which every first occurrence keeps "
   "its time and every repeated one moves past it but not up to the next distinct "
   "time. The data passed in is not changed.",
   ["inputs"], "every sorted index with any numbers of repetitions and any spacing "
   "between distinct values that leaves room for them",
   "the tests use four fixed indexes with at most three repetitions",
   ["trappy/utils.py"],
   [("index rewriting", "trappy/utils.py handle_duplicate_index")], [],
   ["returned frame"]),
 p("C14", "Triggered aggregation counts exactly the matching events",
   "A trigger produces one sample for each event row that passes all of its filters "
   "and whose pivot is a known node, at that row's time, with the given constant or the named column's value. "
   "Aggregating at a topology level returns one result per group of the level, "
   "combining exactly the samples of the group's nodes at each time, and the same "
   "call gives the same answer however often and in whichever order levels are requested. "
   "The lists of groups that define the levels are left as they were.",
   ["inputs", "histories"], "every trace, topology, set of triggers with value, list and "
   "function filters, every level and every sequence of aggregations",
   "the tests use one trigger on a three-line trace",
   ["trappy/stats/Trigger.py", "trappy/stats/Aggregator.py", "trappy/stats/Topology.py"],
   [("trigger generation", "trappy/stats/Trigger.py generate"),
    ("aggregation", "trappy/stats/Aggregator.py"),
    ("levels", "trappy/stats/Topology.py")],
   [("aggregated series", "per-node results", "trappy/stats/Aggregator.py MultiTriggerAggregator")],
   ["aggregate() results"]),
 p("C15", "Indexers and correlators align without inventing data",
   "Unifying the indexes of several traces yields the sorted distinct times of the "
   "named event over all of them, and nothing else. Correlating two events of two "
   "traces pairs each sample with the other's value in force at that time, after "
   "aligning both at their first or their last samples that are not zero, and "
   "correlating a signal with itself reports full correlation without a shift. "
   "Plotting the correlation draws the pairs that were compared.",
   ["inputs"], "every set of traces with overlapping, disjoint or empty events",
   "the tests index two fixed traces; correlation has no test",
   ["trappy/stats/Indexer.py", "trappy/stats/Correlator.py"],
   [("unification", "trappy/stats/Indexer.py"), ("shift and correlation", "trappy/stats/Correlator.py")],
   [], ["returned series"]),
 p("C16", "Expressions mean what Python means by them",
   "A statistics expression over numbers, named variables and functions "
   "evaluates to the value of the equally written Python expression with the "
   "language's documented operator precedence: exponentiation, unary signs, multiplicative, "
   "additive, comparison and then the logical operators (&&, ||, & and | on one level), each "
   "left-associative, with parentheses and function calls, numbers being floats. A text that is not an "
   "expression, or names an unknown variable or function, is refused.",
   ["programs"], "every expression of any depth over all operators, literals and functions",
   "the tests evaluate about twenty fixed expressions",
   ["trappy/stats/grammar.py"],
   [("parser and evaluator", "trappy/stats/grammar.py Parser")], [],
   ["Parser.solve() results"]),
 p("C17", "Expressions over trace columns use exactly the selected data",
   "An event:column term of an expression denotes that column of that event, one "
   "column per pivot value when the event has a pivot, restricted to the parser's time "
   "window and to the rows passing the filters; terms of different events are "
   "combined on the union of the times of all the events used in the parser so far, in "
   "order, with the value in force carried forward and no value before the first sample, or by the "
   "reindexing method, limit and filling the parser was given, alike for all terms whatever their order. "
   "References select the data used so far by such a mask, inspecting an accessor reports the "
   "event's own rows and pivot values, equally named columns of different events stay apart, "
   "and unknown events, columns and variables and events without rows are refused.",
   ["inputs", "programs"], "every trace, window, filter, pivot, reindexing option and accessor expression",
   "the tests use two-row events with one column",
   ["trappy/stats/grammar.py"],
   [("accessor resolution", "trappy/stats/grammar.py _pre_process, _post_process"),
    ("window", "trappy/stats/grammar.py Parser.__init__")],
   [("aggregated frame", "columns gathered so far", "trappy/stats/grammar.py _agg_df")],
   ["Parser.solve(), ref() and inspect() results"]),
 p("C18", "Plot constraints expand and select exactly",
   "Plotting attributes given as single values or lists expand to one constraint per "
   "trace, event and column, with single values repeated and lists of incompatible lengths "
   "refused; permuting gives every trace with every column and its event once. Signals "
   "(event:column:colour) mean the same as events, columns and colours. Each constraint yields, "
   "per pivot value present in its data, exactly the rows of its event "
   "passing all the filters, keyed by pivot, with the values of its column; a window "
   "keeps the rows in it and the ones just before and after it.",
   ["inputs", "configurations"], "every combination of traces, templates, columns, filters "
   "and pivots over generated traces",
   "the tests expand a few fixed attribute lists",
   ["trappy/plotter/Constraint.py"],
   [("expansion", "trappy/plotter/Constraint.py ConstraintManager"),
    ("selection", "trappy/plotter/Constraint.py Constraint")],
   [], ["Constraint.result"]),
 p("C19", "Static plots draw exactly the selected data",
   "A line or bar plot draws, on the axes of each pivot value or constraint, exactly "
   "the selected series with their own times and values, each under the legend entry "
   "and title that belong to it, whether series are drawn apart, concatenated or "
   "permuted. Limits, step, fill, markers and layout options never add, drop or "
   "exchange data.",
   ["inputs", "configurations"], "every trace with pivots missing in some constraints, and "
   "every documented combination of plot options",
   "the tests only check that plotting does not raise",
   ["trappy/plotter/StaticPlot.py", "trappy/plotter/LinePlot.py", "trappy/plotter/BarPlot.py"],
   [("resolution", "trappy/plotter/StaticPlot.py _resolve, _resolve_concat"),
    ("drawing", "trappy/plotter/LinePlot.py, BarPlot.py")],
   [], ["lines and bars of the matplotlib axes"]),
 p("C20", "Layouts give each plot its own place and colour",
   "A layout of any number of plots in any number of columns gives each linear plot "
   "position its own axes, in row order, without axes for positions that are "
   "not used, and refuses nothing that fits. A map of given colours has exactly those colours "
   "in order, a gradient has a colour of its own for each position, and the inverse "
   "position counts from the other end.",
   ["configurations"], "all small numbers of plots and columns, all colour map sizes and "
   "indexes",
   "the tests build three layouts",
   ["trappy/plotter/PlotLayout.py", "trappy/plotter/ColorMap.py"],
   [("layout", "trappy/plotter/PlotLayout.py"), ("colours", "trappy/plotter/ColorMap.py")],
   [], ["axes returned"]),
 p("C21", "Interactive plots hand exactly the selected data to the page",
   "The data that an interactive line plot puts in the page has one column per "
   "series, in the order of its labels, and each sample appears at its time with its "
   "value; between its own samples a series is interpolated in time, or carries the "
   "value that its step style asks for, and it has no invented value before its first or after "
   "its last sample. Series with different labels are neither lost nor mixed up when they are "
   "concatenated, permuted or drawn with steps, each figure has the title and the place that "
   "belong to it, and limits, steps, fill, markers and colours reach the page as asked.",
   ["inputs", "configurations"], "every set of series with different times and every "
   "documented plot option",
   "the tests only check that plotting does not raise",
   ["trappy/plotter/ILinePlot.py", "trappy/plotter/ILinePlotGen.py"],
   [("data generation", "trappy/plotter/ILinePlotGen.py"),
    ("resolution", "trappy/plotter/ILinePlot.py")],
   [], ["JSON data written for the page"]),
 p("C22", "Task residency in event plots follows the scheduler switches",
   "For each task and cpu, the intervals shown are exactly those between the switch "
   "to the task and the next switch away from it on that cpu, closed at the end of "
   "the trace if it is still running, and idle and migration threads are not shown; an interval "
   "whose end was lost is not shown once the task is switched to again. Execname and pid "
   "filters leave out the other tasks only. Lanes "
   "and tasks are shown with all their intervals, none belonging to another task of "
   "the same name and different pid, and the page gets exactly these data.",
   ["inputs", "histories"], "every switch history over several cpus, with windows, "
   "missing first or last switches and repeated names",
   "one test uses a fixed two-task trace",
   ["trappy/plotter/EventPlot.py", "trappy/plotter/Utils.py"],
   [("residency", "trappy/plotter/Utils.py get_trace_event_data"),
    ("rendering", "trappy/plotter/EventPlot.py")],
   [], ["interval data of the plot"]),
 p("C23", "Derived frequency and load data add up",
   "Frequencies and loads derived from power events are "
   "those of the rows they come from: per cluster, under its label, frequencies in MHz, "
   "loads summed over the cluster's cpus, normalised loads scaled by the frequency over the "
   "cluster's maximum frequency and number of cpus, and values carried forward between events and never "
   "back. Clusters without events add nothing, and an event of a cluster that has no "
   "label is refused by name.",
   ["inputs"], "every trace of power and thermal events for any map of clusters and "
   "any order of events",
   "the tests check one sample trace's column names and first values",
   ["trappy/cpu_power.py", "trappy/devfreq_power.py", "trappy/ftrace.py"],
   [("pivoting", "trappy/cpu_power.py"), ("frames", "trappy/ftrace.py get_all_freqs_data")],
   [], ["frames returned by the getters"]),
 p("C24", "Workload results and sysfs extracts keep every score",
   "Collecting workload results gives, for each benchmark and variant, every score "
   "under its number, whichever order the lines of different scores come in, and nothing else; of "
   "several lines for the same score the first counts. Combining results keeps the scores of "
   "all of them, and their plots show all of them. Extracted sysfs parameters are those of the files "
   "collected, complete, by name, and are shown completely.",
   ["inputs"], "every results file and directory of extracted files",
   "the tests parse one sample file",
   ["trappy/wa/results.py", "trappy/wa/sysfs_extractor.py"],
   [("results", "trappy/wa/results.py"), ("sysfs", "trappy/wa/sysfs_extractor.py")],
   [], ["Result frame", "get_parameters()"]),
 p("C25", "Exported notebooks keep everything but the replaced assets",
   "Exporting a notebook to HTML removes exactly the marked lines and blocks of its displayed "
  "outputs, puts the files and libraries that are marked for it in their place, each once "
  "per notebook, and keeps every other line and output byte for byte and in order; the notebook itself "
  "does not change. Interactive plots that are exported keep their data and draw themselves without "
  "the notebook's loader.",
  ["inputs"], "every notebook built from generated blocks, lines and plots",
  "the tests export one small notebook",
  ["trappy/nbexport/exporter.py"],
  [("filter", "trappy/nbexport/exporter.py TrappyPlotterPreprocessor.filter_output"),
   ("the markers", "trappy/plotter/IPythonConf.py, plotter/ILinePlotGen.py, plotter/EventPlot.py")],
  [], ["exported page"]),
 p("C26", "Comparisons of runs show each run's own data",
   "Comparing runs of the thermal framework draws, for every run on its own axes (or its own lines "
   "where runs share one), exactly the run's temperatures and control temperatures (of the zone that is asked "
   "for), loads, normalized loads, input and output frequencies, controller terms, and input, "
   "weighted and output powers in the units named, carried forward along time where rows are "
   "sparse, under the run's title; histograms count every value and state their mean and "
   "deviation. Runs that lack temperatures, gpu data, weights or the events of a cluster neither lose the rest nor shift that of others. Sizes and "
   "limits of axes are those asked for, or contain all the data with the documented margin. "
   "Plotting changes no run.",
   ["inputs"], "every set of runs, clusters, actors, weights and zones, alone, side by side and from "
   "directories",
   "the tests only check that plotting one sample raises nothing",
   ["trappy/plot_utils.py", "trappy/compare_runs.py", "trappy/thermal.py", "trappy/ftrace.py",
    "trappy/pid_controller.py", "trappy/cpu_power.py"],
   [("limits, titles and grids", "trappy/plot_utils.py"),
    ("comparisons", "trappy/compare_runs.py"),
    ("plots of a run", "trappy/ftrace.py plot_*, trappy/thermal.py, trappy/pid_controller.py")],
   [], ["lines, bars, titles and limits of the matplotlib axes"]),
 p("C27", "Damaged traces fail cleanly or not at all",
   "Whatever bytes a text trace or systrace contains, opening it terminates and either gives rows or raises an "
   "error that names the event and the line that can't be parsed, as it does for a line of fields that has other text before its first field. If it gives rows, every line that "
   "is whole has exactly its row, with its fields, number and time, whatever happened to other "
   "lines (cut, overwritten, joined, lost fields, garbage between lines, bytes that are not "
   "UTF-8, the end of the file missing), no damaged line has more than one row, rows are in "
   "order and there are none of lines that are not in the file. The file does not change, and "
   "reading it again, from the cache as well, gives the same.",
   ["inputs"], "every file cut at any byte, with any mutated, joined, lost and inserted bytes and "
   "lines in traces of all kinds of events, and files of arbitrary pieces",
   "the tests use three malformed lines",
   ["trappy/ftrace.py", "trappy/base.py", "trappy/systrace.py", "trappy/sched.py",
    "trappy/raw_syscalls.py"],
   [("header matching", "trappy/ftrace.py SPECIAL_FIELDS_RE"),
    ("parse errors", "trappy/base.py generate_data_dict, trappy/raw_syscalls.py explode"),
    ("arrays", "trappy/base.py trace_parser_explode_array")],
   [], ["data frames and raised errors"]),
 p("C28", "Interactive plots draw their data in the browser",
   "In the browser an event plot draws, for every name and lane, exactly the intervals that "
   "overlap what is in view, clipped to it and at their places (intervals narrower than a pixel "
   "are a pixel wide, those much narrower can be left out), in the name's colour - the one asked "
   "for in color_map, different ones otherwise - with the name as tip; the summary, if any, always "
   "shows the whole domain and marks what is in view. Scrolling, dragging and brushing show the "
   "part asked for, kept within the domain, resizing keeps it, and the axis agrees with it. The "
   "markers A and B stay at their times, are drawn while these are in view, and are reported with "
   "their distance; the interval clicked at is reported and marked. Plots on one page do not "
   "affect each other. Line plots hand over their data, labels, colours and options unchanged, "
   "take their part of the width, and those of a group with sync_zoom, and only those still on the page, "
   "are zoomed together and start with a range that covers the data of all of them.",
   ["inputs", "histories"],
   "every set of plots on a page and every sequence of zooming, brushing, resizing, clicking, "
   "running cells again",
   "no test runs the scripts of a page",
   ["trappy/plotter/js/EventPlot.js", "trappy/plotter/js/ILinePlot.js",
    "trappy/plotter/EventPlot.py", "trappy/plotter/ILinePlotGen.py"],
   [("paths in view", "trappy/plotter/js/EventPlot.js getPaths"),
    ("view", "trappy/plotter/js/EventPlot.js zoomed, resize, _brushed_event"),
    ("markers and clicks", "trappy/plotter/js/EventPlot.js contextMenuHandler, updateInfo"),
    ("groups", "trappy/plotter/js/ILinePlot.js sync, purge")],
   [("graphs", "the graphs of the page by name", "trappy/plotter/js/ILinePlot.js")],
   ["elements drawn, options given to dygraphs"]),
 p("C29", "The scripts of interactive plots are where their pages look",
   "Showing an interactive plot in a notebook installs, below the notebook server's data "
   "directory, every script that the plot's page loads, whole and at the place the page loads it "
   "from: the libraries from their addresses, trappy's own scripts in the version of this trappy, whatever is "
   "installed already. Libraries that are there are not fetched again. If one cannot be "
   "fetched, or only in part, showing the plot raises ImportError and leaves no part of it that a later plot would take for the "
   "library, so that showing it later works.",
   ["fault_sequences", "histories"],
   "every sequence of plots of both kinds, of failures of the network at any byte, of removed and outdated files",
   "the tests never install anything",
   ["trappy/plotter/IPythonConf.py", "trappy/plotter/EventPlot.py",
    "trappy/plotter/ILinePlotGen.py"],
   [("installation", "trappy/plotter/IPythonConf.py iplot_install"),
    ("downloads", "trappy/plotter/IPythonConf.py install_http_resource"),
    ("addresses in pages", "trappy/plotter/IPythonConf.py add_web_base")],
   [("installed files", "what is below the server's data directory", "trappy/plotter/IPythonConf.py")],
   ["files below JUPYTER_DATA_DIR, addresses in the page"]),
 p("C30", "Opens at the same time do not disturb each other",
   "Processes that open the same trace with the cache at the same time, whatever the order of "
   "their file operations, and whether some of them are killed, each get the data they get without a "
   "cache, and so do all later opens. If the trace file is changed or replaced while it is being "
   "opened, that open may see either version, but what it leaves in the cache never shows up in an "
   "open of the other version.",
   ["schedules", "crash_points", "histories"],
   "every interleaving of the file operations of up to three opens, with different events and classes, with "
   "up to two changes of the trace, and every operation at which one of them is killed",
   "the tests open traces one after another",
   ["trappy/ftrace.py", "trappy/base.py"],
   [("validity", "trappy/ftrace.py _is_cache_valid, _get_cache_key"),
    ("recreation of the directory", "trappy/ftrace.py _prepare_cache_dir, _update_cache"),
    ("files of events", "trappy/base.py write_cache, read_cache")],
   [("cache directory", "metadata and one file per event", "trappy/ftrace.py")],
   ["data frames of the opens, the trace file"]),
]

# id -> level_note; a property without a check module is not claimed
NOTES = {}
PENDING = "the check is not built yet"


def main():
    claimed = [q["id"] for q in PROPS if os.path.exists(
        os.path.join(HERE, "checks", q["id"].lower() + ".py"))]
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fout:
        for prop in PROPS:
            fout.write(json.dumps(prop) + "\n")
    checks = []
    for pid in claimed:
        src = open(os.path.join(HERE, "checks", pid.lower() + ".py")).read()
        level = [l for l in src.splitlines() if l.startswith("LEVEL")][0]
        level = level.split("=")[1].strip().strip('"')
        cmd = "/opt/venv/bin/python check.py " + pid
        checks.append(dict(
            property=pid, quick_cmd="VERIF_TIER=quick " + cmd,
            thorough_cmd="VERIF_TIER=thorough " + cmd,
            technique="property-based testing (Hypothesis generators and "
            "shrinking against a reference model)" + TECH.get(pid, ""),
            level=level, level_note=NOTES.get(pid, DEFAULT_NOTE)))
    man = dict(
        version=1,
        setup_cmd="/opt/venv/bin/python check.py --self-test",
        checks=checks,
        not_applicable=[dict(property=q["id"], reason=PENDING)
                        for q in PROPS if q["id"] not in claimed],
        notes="No hooks in /repo: every check uses the public API. "
        "known_findings.jsonl lists findings and repaired defects.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fout:
        json.dump(man, fout, indent=1)
        fout.write("\n")


DEFAULT_NOTE = ("searched with generated inputs up to the sizes in DESIGN.md; "
                "no claim beyond what was generated")
TECH = {}

if __name__ == "__main__":
    main()
