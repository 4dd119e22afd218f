import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=state
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
O="pipit/readers/otf2_reader.py"; PR="pipit/readers/projections_reader.py"; H="pipit/readers/hpctoolkit_reader.py"; N="pipit/readers/nsight_reader.py"; T="pipit/trace.py"; C="pipit/util/cct.py"; G="pipit/graph.py"; W="pipit/writers/chrome_writer.py"; CF="pipit/util/config.py"
p("C01","Parallel loading is exactly-once and independent of the number of workers",
 "Loading an OTF2 or Projections trace yields every recorded event exactly once, on the process and thread that recorded it, with its recorded kind, name and time in nanoseconds, and OTF2 definitions are all present. The loaded table is the same, row for row, for every requested number of loading workers, every machine core count and every order in which workers are scheduled and finish.",
 ["schedules","configurations","inputs"],
 "all traced programs (any number of ranks/threads/PEs, message patterns, clock granularities), all requested worker counts including absent, zero, negative and larger than the core or location count, all core counts, all worker schedules and completion orders",
 "Tests load one 2-location trace with whatever core count the machine has; the partition arithmetic, remainders, merge order and worker scheduling are never varied.",
 [O,PR],[("location partition and per-worker event reading",O+":OTF2Reader.events_reader"),("pool fan-out, merge, sort",O+":OTF2Reader.read_events"),("PE partition and log parsing",PR+":ProjectionsReader._read_log_file"),("fan-out and merge",PR+":ProjectionsReader.read")],["Trace.from_otf2(...).events/.definitions","Trace.from_projections(...).events"])
p("C02","Loading is fail-stop under storage and worker faults",
 "If a trace file cannot be read completely (missing, cut short, unreadable, I/O error) or a loading worker dies or cannot be started, or memory runs out or the user interrupts at any point of the load, loading raises an error instead of returning a trace with silently missing or altered events; when it does return, the trace is complete and correct. Loading again once the fault is gone gives the full trace, the trace files on disk are never modified, and neither success nor failure leaves a worker pool running.",
 ["fault_sequences","crash_points","schedules"],
 "all fault points: any read of any file of an OTF2, Projections, HPCToolkit or CSV trace failing, any file vanishing or being cut short before or during the load, worker death or exception at any task, failure to start workers, memory running out or Ctrl-C at any point of the load, followed by a retry",
 "Unit tests read intact files from a healthy disk with healthy workers; no fault is ever injected.",
 [O,PR,H,T,N],[("worker pool and result collection",O+":OTF2Reader.read_events"),("worker pool and result collection",PR+":ProjectionsReader.read"),("binary section readers",H+":MetaReader/ProfileReader/TraceReader"),("CSV readers",T+":Trace.from_csv")],["return value or exception of each load","pools left open","bytes of the trace directory"])
p("C03","Loading always terminates",
 "Loading a trace finishes, with a trace or an error, in a number of steps and with an amount of memory bounded by the size of its files, even if a file is truncated at any byte or has a corrupted byte, or if a loading worker is killed. It never waits forever for a worker that is gone and never spins at the end of a file.",
 ["fault_sequences","crash_points","inputs"],
 "every truncation point and single-byte corruption of HPCToolkit databases, every truncation of OTF2 and Projections files and single-byte corruption of Projections, Nsight and CSV files, every worker death or worker error at any task",
 "Tests load intact traces only; non-termination needs a fault at a particular point.",
 [O,PR,H],[("collection of worker results",O+":OTF2Reader.read_events"),("collection of worker results",PR+":ProjectionsReader.read"),("section loops and string scanning",H+":MetaReader.__read_string, ProfileReader.__read_hit_section, TraceReader.__read_single_trace_header")],["steps executed until each load returns or raises"])
p("C04","Tied timestamps never reorder a location's own events",
 "Events of one process (or of one thread, where threads are recorded) appear in the loaded table in the order in which they were recorded, also when many of them carry the same timestamp because the clock is coarse. Hence back-to-back and zero-length calls keep their true nesting after loading, for every supported trace format.",
 ["inputs","schedules"],
 "all traced programs and interleavings under clocks from nanosecond to very coarse granularity (up to all events tied), for OTF2, Projections, HPCToolkit, Nsight and CSV inputs, any worker count",
 "Sample traces have few ties and few rows (small sorts happen to be stable); the order is only lost with enough rows and ties.",
 [O,PR,H,N,T],[("global time sort",O+":OTF2Reader.read_events"),("global time sort",PR+":ProjectionsReader.read"),("sort by time and index",H+":HPCToolkitReader.read"),("sort by time",N+":NsightReader.read"),("sort by time",T+":Trace.from_csv")],["row order of Trace.events per process/thread"])
p("C05","Projections logs cut off by a crash end at the last recorded time",
 "If a processing element dies before closing its log, loading still returns everything it recorded before the crash, and the enclosing computation of that element is closed exactly once, at the latest time recorded in its log. Elements that ended cleanly get no extra events, and other elements are unaffected.",
 ["crash_points","schedules"],
 "every crash point of every subset of PEs of every Charm++-like execution, any worker count",
 "The sample log ends cleanly, so the recovery path is never executed by a test.",
 [PR],[("closing of logs without an end-of-computation record",PR+":ProjectionsReader._read_log_file")],["last rows per process of Trace.from_projections(...).events"])
p("C06","HPCToolkit call stacks are rebuilt faithfully from samples",
 "For every location of an HPCToolkit trace the loaded enter and leave events are exactly the changes between consecutive sampled call stacks: frames no longer on the stack are closed innermost first at the new sample's time, new frames are opened outermost first, frames common to both stay open, idle samples close everything, and frames still open are closed at the trace's end time. Loop frames are reported as loop events, and each event names the function, source file, source line, context, process and thread of its frame.",
 ["schedules","inputs","programs"],
 "all sampled executions: any calling-context trees with functions, loops and line contexts, any sampling instants, idle gaps, repeated samples, number of ranks and threads",
 "One fixed ping-pong database is counted in tests; the stack-difference logic depends on the sequence of samples.",
 [H,G],[("per-location stack difference",H+":TraceReader.__read_single_trace_header"),("context tree decoding",H+":MetaReader.__read_children_contexts"),("common ancestor and path",G+":Node.get_intersection, Node.get_node_list")],["Trace.from_hpctoolkit(...).events"])
p("C07","OTF2 hardware counters stay attached to their event",
 "Each counter reading recorded together with an enter or leave event is loaded on that event's row and on no other, under the counter's name; rows without a reading hold no value. This holds for any number of counters and counter groups, on any location, under any worker count.",
 ["schedules","inputs","configurations"],
 "all traced programs recording any subset of events with readings from one or several counter groups of several counters, any clock granularity, any worker count",
 "The only sample has two counters on every event of one location layout; sparse readings, many counters and tied times are untested.",
 [O],[("counter pairing and placeholders",O+":OTF2Reader.events_reader")],["counter columns of Trace.from_otf2(...).events"])
p("C08","Enter and leave events are matched correctly on every execution",
 "Within each process and thread, every leave event is matched with the most recent still-unmatched enter event of the same name, and with nothing else; matches are mutual and carry the partner's timestamp. The matching does not depend on how events of different locations interleave in the table, and calls cut off by a crash, a late start of tracing or lost records are left unmatched without disturbing other matches.",
 ["schedules","crash_points","histories"],
 "all interleavings of any number of processes and threads, recursion and repeated names, with crash, late attach or lost record ranges at any point of any location",
 "Tests check one two-rank trace in which every non-root call is a leaf.",
 [T],[("stack matching per location",T+":Trace._match_events")],["_matching_event, _matching_timestamp columns"])
p("C09","Call structure (depth, parent, children) reflects the real nesting",
 "For every matched call, its parent is the innermost matched call of the same process and thread that was open when it began, its depth is the number of such open calls, and its children are exactly the calls that name it as parent, in order of occurrence; calls with no open caller are roots. This holds for every interleaving of locations and with calls cut off by crashes, late attach or lost records.",
 ["schedules","crash_points","histories"],
 "all interleavings, nesting depths, recursion patterns, thread counts, and tracer faults at any point",
 "Tests only count the parents and children of one two-level trace.",
 [T],[("caller/callee stack",T+":Trace._match_caller_callee")],["_depth, _parent, _children columns"])
p("C10","The calling context tree merges calls by call path and by nothing else",
 "The calling context tree has exactly one node for each distinct chain of function names that occurs, shared by all processes, threads and repetitions; a node's level is its distance from the root and its children are listed once, and the deepest common caller of two nodes and the chain of callers above a node are found. Every enter event refers to the node of its own call path whatever the function names contain, however locations interleave or records are cut off, and whether the tree is built on demand or asked for with the load.",
 ["schedules","inputs","crash_points"],
 "all interleavings and call paths (including recursion and arbitrary function names) over any number of locations, with tracer faults",
 "No test builds a tree with more than one path shape, and none checks its contents.",
 [C,G,T],[("tree construction",C+":create_cct"),("node levels and identity",G+":Node, Graph")],["Trace.cct, Graph_Node column"])
p("C11","Inclusive and exclusive metrics are conserved",
 "For every matched call and every numeric metric, the inclusive value is the leave reading minus the enter reading, and the exclusive value is the inclusive value minus the inclusive values of its direct children; other rows carry no value. Hence exclusive times are non-negative on a well-nested execution and on each location sum to the inclusive time of its outermost calls, for every interleaving and recursion pattern.",
 ["schedules","inputs","crash_points"],
 "all executions with any number of locations, nesting, extra counters, tied times and tracer faults, and all sets of requested metrics in any order",
 "Tests verify these values only indirectly on one trace with two call levels and time as only metric.",
 [T],[("inclusive metrics",T+":Trace.calc_inc_metrics"),("exclusive metrics",T+":Trace.calc_exc_metrics")],["*.inc and *.exc columns"])
p("C12","Profiles, load imbalance and idle time agree with the executed calls",
 "The flat profile gives, per function, the metric summed over that function's calls on each process, either per process or averaged over the processes that called it, whether grouped by one column or by several. Load imbalance is the largest per-process total divided by that average, listing the processes with the largest totals first, and idle time is, per process, the summed inclusive time of the idle functions asked for (plus the blocking MPI calls when requested).",
 ["schedules","inputs","configurations"],
 "all executions (any ranks, threads, imbalance, functions missing on some ranks, crashed ranks) and all argument choices",
 "No unit test covers these summaries; they must agree with the execution whatever its shape.",
 [T],[("flat profile",T+":Trace.flat_profile"),("load imbalance",T+":Trace.load_imbalance"),("idle time",T+":Trace.idle_time")],["returned tables"])
p("C13","The time profile accounts for every location's time in every interval",
 "In each time interval, each function's contribution is exactly the exclusive time its calls spend inside that interval, over all processes and threads, and idle time is the rest of the interval over all processes and threads. Summed over intervals, contributions equal total exclusive times; each interval adds up to its length times the number of locations, and normalisation only divides by that amount.",
 ["schedules","inputs","crash_points"],
 "all executions with any locations, nesting, calls spanning, starting, ending on or contained in intervals, crashed locations, and any number of intervals",
 "One single-threaded trace with fixed bins is tested; multi-threaded traces and calls aligned with interval edges are not.",
 [T],[("binning and exclusive time",T+":Trace.time_profile")],["returned table"])
p("C14","Communication views conserve messages",
 "The communication matrix counts every point-to-point message sent exactly once, at its true sender and receiver rank, by bytes or by number; per-process totals, the message size histogram and communication over time add up to the same messages. This holds for blocking and non-blocking sends, for every message interleaving, and when some ranks recorded nothing.",
 ["schedules","inputs","crash_points"],
 "all message exchanges between any number of ranks under any delivery order and delay, with crashed or silent ranks, all bin counts",
 "Tests cover one symmetric two-rank exchange with blocking messages.",
 [T],[("matrix",T+":Trace.comm_matrix"),("histograms",T+":Trace.message_histogram, Trace.comm_over_time"),("per process",T+":Trace.comm_by_process")],["returned arrays and tables"])
p("C15","Comparing several runs reports each run's own profile",
 "The multi-run comparison has one row per trace, in the given order and labelled with that trace's number of processes, whose entries are exactly that trace's average per-function metric (exclusive time unless others are asked for), with no value where a run never called a function; columns are ordered by decreasing total. Traces neither influence each other nor depend on the order or state in which they are passed.",
 ["schedules","histories","inputs"],
 "all sets of executions of one program at different scales, all orders, traces fresh or already analysed",
 "There is no test of the comparison; it must hold for any combination of traces.",
 [T],[("multi-run aggregation",T+":Trace.multirun_analysis")],["returned table"])
p("C16","Analysis results do not depend on what was computed before",
 "Every analysis returns the same result whether it is the first one made on a trace or follows any sequence of other analyses, repetitions with the same or different arguments, failed calls, or analyses of other traces in the same session, also if the caller has changed the results it was given.",
 ["histories"],
 "all sequences of analysis calls with all argument choices over one or more traces",
 "Tests run each analysis on a freshly loaded trace; order dependence needs multi-step histories.",
 [T,C],[("cached columns and their guards",T+":Trace._match_events, _match_caller_callee, calc_inc_metrics, calc_exc_metrics"),("idle functions argument",T+":Trace._calculate_idle_time_for_process")],["results of each call in a history"],[{"name":"derived columns","meaning":"cached matching, structure and metric columns","where":T+":Trace.events, inc_metrics, exc_metrics"}])
p("C17","Analyses and exports never alter recorded data or caller arguments",
 "No analysis, tree construction or export changes, drops, reorders or relabels a recorded event, any recorded column value, the definitions or an argument passed in by the caller; analyses only add derived columns. This holds over any sequence of calls, including calls that fail or are interrupted.",
 ["histories","fault_sequences"],
 "all sequences of analyses and exports with all arguments, with failures and interruptions at any point",
 "Tests look at results of single calls, not at the input data after sequences of them.",
 [T,C,W],[("in-place use of the events table",T+":Trace"),("export copies",W+":ChromeWriter.write"),("tree column",C+":create_cct")],["Trace.events, Trace.definitions and arguments before and after"])
p("C18","An interrupted analysis can be repeated with correct results",
 "If an analysis is cut off by a user interrupt or by running out of memory, repeating it or any other analysis on the same trace gives the same results as on a freshly loaded trace. An interrupted call never leaves half-computed results behind that later calls take for complete.",
 ["crash_points","histories"],
 "every interruption point inside the long-running part of every analysis, memory exhaustion at any allocation-heavy step, followed by any analyses",
 "Unit tests never interrupt a call; a half-written cache needs an interruption at the right point.",
 [T,C],[("compute-then-publish of cached columns",T+":Trace._match_events, _match_caller_callee, calc_inc_metrics, calc_exc_metrics"),("tree construction",C+":create_cct")],["results after an interrupted call"])
p("C19","Traces analysed in different threads do not influence each other",
 "When several threads of one program load and analyse different traces at the same time, each thread obtains exactly the results it would obtain alone, for every interleaving of the threads.",
 ["schedules"],
 "all preemption schedules of two or more threads each running any sequence of loads and analyses on its own trace",
 "Tests are single-threaded; a shared mutable state bug needs a particular interleaving.",
 [T,C,G,O,PR],[("per-trace state",T+":Trace"),("tree ids",C+":create_cct"),("reader state",H+":MetaReader")],["results per thread"])
p("C20","Configuration options behave as validated registers",
 "Reading an option returns the value most recently set successfully, or the default after a reset; setting an invalid value or an unknown option is rejected with an error and changes nothing, and options do not affect each other. With several threads setting, resetting and reading options, each option behaves as one atomic register.",
 ["histories","schedules"],
 "all sequences and thread interleavings of get, set and reset with valid, invalid and unknown keys and values",
 "Tests set each option once in one thread; histories with resets, rejections and concurrency are not covered.",
 [CF],[("option store and validators",CF+":get_option, set_option, reset_option")],["values returned and errors raised"])
p("C21","Exported Chrome traces are complete or the export fails",
 "When an export returns successfully, the file (or returned text) is valid JSON holding every event exactly once in order, with its name, phase, process, thread, attributes (floating-point numbers to 15 decimal places) and time in microseconds. If the disk is full, a write or close fails or the path is unusable, the export raises an error; the trace is unchanged either way and exporting again to healthy storage succeeds.",
 ["fault_sequences","schedules","inputs"],
 "all executions, and all disk fault points (no space at any byte, I/O error at any write, failing open or close, short writes)",
 "There is no test of the export at all, and storage faults are never injected.",
 [W,T],[("export",W+":ChromeWriter.write"),("entry point",T+":Trace.to_chrome")],["exported bytes, raised errors"])
p("C22","Nsight and CSV traces load completely and with the right identities",
 "Every range of an Nsight report becomes exactly one enter and one leave event at its start and end with its name and attributes, and every line of a CSV trace becomes exactly one event with times converted to nanoseconds when given in seconds. Distinct processes and threads stay distinct and belong together as recorded (an Nsight report's processes, and the threads of each, are numbered from 0 on without gaps), and the loaded trace can be analysed like any other.",
 ["schedules","inputs"],
 "all executions exported as Nsight range reports or CSV event lists: single or multiple processes, single or multiple threads, any file order of rows",
 "There is no Nsight test and the CSV reader is untested; identity mapping depends on the set of process and thread ids.",
 [N,T],[("range to event expansion, identity mapping",N+":NsightReader.read"),("CSV conversion",T+":Trace.from_csv")],["Trace.from_nsight(...).events, Trace.from_csv(...).events"])
p("C23","Loading and analysing are reproducible from run to run",
 "Running the same script on the same trace files again, in a new interpreter with different hash randomisation, locale, directory listing order, worker scheduling or clock, gives identical tables, trees and reports, including their row and column order.",
 ["schedules","configurations"],
 "all hash seeds, locales, directory orders, worker schedules and wall-clock readings, over all loads and analyses",
 "A test runs in one interpreter with one hash seed and cannot compare runs.",
 [T,C,O,PR,H,N],[("iteration over sets of names and locations",T+":Trace.load_imbalance, Trace.idle_time"),("tree node numbering",C+":create_cct"),("directory scan",PR+":ProjectionsReader.__init__")],["digest of every result"])
p("C24","Pattern detection looks at one process and returns whole stretches of it",
 "Detecting patterns for a start event searches the sequence of the chosen metric over the calls of the chosen process between its first enter and its last leave of that event, with the given window and number of repetitions (or, if absent, those that follow from the number of its occurrences). It returns, per repetition found, all events of that process at the times of the repetition's calls, in recorded order, and nothing of other processes. The answer does not depend on how other processes interleave, on analyses made before, or on what was recorded outside that stretch.",
 ["schedules","crash_points","inputs"],
 "all iterative executions with any number of processes, threads, iterations and noise, every interleaving, coarse clocks, crashes, late attach and lost records, after any other analyses",
 "No test calls it; the stretch depends on where other processes' events fall in the table and on ties between their timestamps.",
 [T],[("selection of the stretch, motif search, selection of the events",T+":Trace.detect_pattern")],["returned list of tables"])
p("C25","Event details survive parallel loading",
 "The details recorded with an event (for OTF2: region, communicator, receiver, sender, tag, message length and the like; for Projections: entry names, source element, message type, event id, message length, send and receive times, destinations, notes, memory and user statistics) appear on that event's row with the recorded values. Every kind of event an OTF2 trace can hold and every kind of Projections log record that the reader names is decoded without error, whatever worker handles it, and the OTF2 definitions events refer to show their recorded fields.",
 ["schedules","inputs","programs"],
 "all sequences of record kinds and values in all logs, any worker count and schedule",
 "The sample logs contain only some record kinds; several decoding branches are never executed by tests.",
 [PR,O],[("record decoding",PR+":ProjectionsReader._read_log_file, STSReader.read_sts_file"),("attribute conversion",O+":OTF2Reader.handle_data, field_to_val")],["Attributes column"])
p("C26","Loading reads what the trace's files contain now, however they are addressed",
 "A load returns the trace whose files are at the given place at that moment. It does not matter how the place is addressed (absolute or relative path, trailing or doubled slash, symbolic link, any characters in names), what the current directory is, which unrelated files and directories lie next to the trace's files, what times the files carry, or what was loaded from the same or another place before.",
 ["histories","configurations"],
 "all histories of writing, replacing, moving and loading traces of all formats at any places, under all forms of addresses and current directories, with unrelated files next to them",
 "Tests load each sample once, from one absolute path in a directory that holds nothing else.",
 [O,PR,H,N,T],[("anchor file name and worker-side opening",O+":OTF2Reader.__init__, OTF2Reader.events_reader"),("directory scan and file names",PR+":ProjectionsReader.__init__"),("database file names",H+":HPCToolkitReader.__init__"),("file names",T+":Trace.from_csv, Trace.from_nsight")],["Trace.from_*(...).events after each step of the history"])
p("C27","A session keeps nothing of traces it is done with, and stays as it was",
 "When a load, analysis or export has returned, failed or been interrupted, and its result or error has been dealt with, every file it opened is closed and no worker is left; when a trace is dropped, its events, definitions, tree and derived data are freed, so that any number of traces can be handled one after the other. The calls leave the rest of the session alone: current directory, environment, random generators, warning, numeric, pandas and logging settings, signal handlers and streams.",
 ["histories","fault_sequences","crash_points"],
 "all histories of loads, failing loads, interrupted loads, analyses, exports and drops of traces of all formats",
 "Every test process loads a handful of traces and ends; nothing looks at descriptors, memory or session state afterwards.",
 [O,PR,H,N,T,C,G,W],[("opening of trace files",PR+":STSReader.__init__, ProjectionsReader._read_log_file"),("opening of databases",H+":DatabaseFile"),("worker pools",O+":OTF2Reader.read_events"),("tables and trees kept by a trace",T+":Trace")],["open descriptors, weak references, interpreter state after each step"])
with open(__file__.rsplit("/",2)[0]+"/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P:
    assert len(x["title"])<=80,x["id"]
