"""The properties: statement, anchors, deciding technique."""
M = "cmakeperf/src/measure/"
TS = "path-sensitive typestate analysis over interprocedural MIR"
PROPS = [
 dict(id="M01", title="A successful full-build profile holds one row per compilation unit",
  statement="When profiling a full build reports success, the output file contains exactly one row for every unit of the compilation database, and all of them have reached the file. "
            "Units handed back by a worker that was stopped are compiled again, and any other failure ends the measurement with an error instead of success.",
  over=["inputs", "schedules", "fault_sequences"], quant="every compilation database, worker count, order of worker messages and I/O error",
  why="The test profiles one small project without failures; lost or duplicated units depend on message orders, kills and write errors that it never produces.",
  files=[M + "main.rs", M + "mod.rs"], mech=[("result loop and remaining job counter", M + "main.rs run()"), ("job queue", M + "mod.rs WorkQueue::new")],
  technique=TS + " (message / row / counter / flush protocol of the collecting thread)",
  note="Decided on every path of the collecting thread, unbounded iterations: counting is done as a balance of rows against counter steps; that database entries are all queued is decided by forbidding dropping adapters and tracking each item to the queue."),
 dict(id="M02", title="The progress callback fires once per completed unit",
  statement="While profiling a full build, the progress callback is invoked exactly once for each unit whose profile was recorded, before the measurement waits for another result or reports success. It is never invoked for a unit that was not recorded.",
  over=["inputs", "schedules", "fault_sequences"], quant="every order of worker results, kills and write errors",
  why="The existing test counts callbacks on a run without failing, killed or requeued units.",
  files=[M + "main.rs"], mech=[("step_done call after each row", M + "main.rs run()")],
  technique=TS + " (rows against callbacks)", note="All paths of the collecting thread."),
 dict(id="M03", title="A measurement reports exactly one outcome, and the right one",
  statement="Every full-build measurement that is started calls its completion callback exactly once, even if a thread panics. The outcome is 'killed' exactly when the request to stop was observed, and 'out of memory' only when no worker was left running.",
  over=["schedules", "fault_sequences"], quant="every interleaving of the stop request with worker results, and every panic",
  why="Tests exercise one successful run and an out-of-memory run; panics and stop requests at arbitrary moments are not sampled.",
  files=[M + "main.rs", M + "mod.rs"], mech=[("catch_unwind around the measurement", M + "main.rs run()"), ("build_done", M + "mod.rs Measurement::start")],
  technique=TS + " with unwinding edges (callback exactly once, error variants against observed facts)", note="All paths including unwinding of the measurement thread."),
 dict(id="M04", title="A worker reports once on each job it takes, truthfully",
  statement="Each job a profiling worker takes is followed by exactly one report before the worker takes another job or ends, whatever fails. "
            "A profile is only reported for the job that was taken and after its compiler exited successfully; a job abandoned because the worker was asked to stop is handed back, and after reporting an error the worker takes no further job.",
  over=["inputs", "schedules", "fault_sequences"], quant="every job, exit status, stop request and panic",
  why="The tests never make a compiler fail, never panic in a worker, and never stop a worker at each of the possible points.",
  files=[M + "worker.rs"], mech=[("job loop", M + "worker.rs run()"), ("process_job", M + "worker.rs process_job()")],
  technique=TS + " with unwinding edges (job / message protocol of the workers)", note="All paths including unwinding of the worker threads."),
 dict(id="M05", title="Requests to stop a measurement reach every thread and process promptly",
  statement="Dropping a measurement, or its failure, makes every worker stop after at most one polling interval instead of finishing the remaining work: nobody waits for a result, a compiler or a thread without looking at the stop request, and all workers are asked to stop before they are awaited. "
            "Once a worker has seen the request it neither starts nor keeps waiting for a compiler.",
  over=["schedules", "fault_sequences"], quant="every moment at which the stop request, an error or a panic may occur",
  why="Stopping at every possible point of the protocol, and after every failure, cannot be sampled by tests.",
  files=[M + "main.rs", M + "mod.rs", M + "worker.rs"], mech=[("stop flag", M + "mod.rs Drop for Measurement"), ("stop words", M + "mod.rs StopFlags"), ("keep_job/switch_job", M + "worker.rs MonitorClient")],
  technique=TS + " with unwinding edges (stop request propagation)", note="All paths of the caller's destructor, the collecting thread and the workers. The length of the polling interval is not decided."),
 dict(id="M06", title="No compiler process is left behind",
  statement="Every compiler process that a measurement (full-build profile or time trace) starts is awaited before the thread that owns it goes on to something else or ends, on every path: normal completion, stop requests, errors and panics. "
            "So a measurement that is over, was cancelled, or was interrupted because the user quits never leaves a running or defunct compiler behind that could still write to the user's build directory.",
  over=["schedules", "fault_sequences"], quant="every exit path, unwinding included, of every function or thread that owns a child process",
  why="The tests measure successful compilations; a cancelled, failing or panicking measurement has many exit points that they never take.",
  files=[M + "worker.rs", "src/ui/tui/trace/measure.rs"], mech=[("job process", M + "worker.rs process_job()"), ("clang process", "src/ui/tui/trace/measure.rs CancelableClang")],
  technique=TS + " with unwinding edges (ownership and reaping of std::process::Child)", note="All paths of all owners of processes started with Command::spawn; helpers such as Command::output reap by themselves."),
 dict(id="M07", title="A compiler that prints a lot does not block the measurement",
  statement="A compiler started by a measurement with piped output always has a reader that reads each of its pipes to the end while somebody waits for the process. So the measurement completes whatever amount of diagnostics the compiler prints.",
  over=["inputs"], quant="every amount of output of the measured compilers",
  why="The tests compile files with little output; a deadlock needs more output than the pipe buffer holds.",
  files=[M + "worker.rs", "src/ui/tui/trace/measure.rs"], mech=[("job output", M + "worker.rs process_job()"), ("clang output", "src/ui/tui/trace/measure.rs CancelableClang::start")],
  technique=TS + " (pipes of awaited processes against reader threads)", note="All paths from process start to wait. A pipe handed to a thread counts as read if that thread reads it to the end on every normal path."),
 dict(id="D01", title="Freshness verdicts never call an outdated product up to date",
  statement="Freshness queries on a full-build profile or a derived file report it as nonexistent exactly when its file does not exist, as outdated exactly when the compilation database or a relevant source file was modified after it, and as possibly up to date, with its age, only after it was compared to the compilation database and to every relevant source file. "
            "Failure to query one of these files is reported as an error, and exists() is true for everything but a nonexistent product.",
  over=["inputs", "fault_sequences"], quant="every set of source files, modification times and query failures",
  why="Tests touch one or two files in a fixed order; the verdict must be right for every number of sources, whichever of them is newer or cannot be queried.",
  files=["cmakeperf/src/commands.rs"], mech=[("product_freshness", "cmakeperf/src/commands.rs CompilationDatabase::product_freshness"), ("exists", "cmakeperf/src/commands.rs ProductFreshness::exists")],
  technique=TS + " (comparisons made against verdict returned)", note="All paths, any number of sources. Which file a modification time belongs to is decided by value provenance."),
 dict(id="D02", title="Loading a compilation database or build profile is complete or fails",
  statement="When loading a compilation database or a full-build profile succeeds, everything the file holds is part of the result: no record is skipped, and each compilation database entry can be looked up by its own input path and is listed by entries(). "
            "A missing file is reported as exactly that, and every other read or parse failure as an error.",
  over=["inputs", "fault_sequences"], quant="every file content and I/O error",
  why="The tests load a few valid files and none with a malformed record in the middle; whether each failure is reported depends on inputs they do not sample.",
  files=["cmakeperf/src/commands.rs", "cmakeperf/src/output.rs"], mech=[("CompilationDatabase::load", "cmakeperf/src/commands.rs"), ("output::load", "cmakeperf/src/output.rs")],
  technique=TS + " (records read against records stored, failures against outcome)", note="All paths, any number of records. JSON and CSV parsing themselves (serde_json, csv) are trusted."),
 dict(id="D03", title="Build profiles are read back as they were written",
  statement="The columns written to a full-build profile are the ones that loading it assigns to the same fields: every field of each row is written under the name and type it is read back with, and no field is ever left out. "
            "The constructor and accessors of a unit profile give back exactly what was measured and stored; only invalid durations are reported as errors.",
  over=["inputs"], quant="every unit profile",
  why="Tests never load what the writer produced; writer and reader tables are two cooperating sites that only have to disagree for some rows.",
  files=["cmakeperf/src/output.rs", M + "main.rs"], mech=[("UnitProfile serialization", "cmakeperf/src/output.rs UnitProfile"), ("CSV writer", M + "main.rs run()")],
  technique="comparison of the serializer's and deserializer's field tables extracted from MIR, with value provenance of constructor and accessors", note="serde derive output is analysed, not its attributes. Numeric conversion of durations is not decided."),
 dict(id="T01", title="A loaded clang trace accounts for every event, or loading fails",
  statement="When loading a clang time trace succeeds, every event of the file was recorded exactly once, as an activity, a global statistic, or the process or thread name, and its process identifier was checked against the others; any other event, duplicate or failure is reported as an error. "
            "Trace-wide metadata was checked to be what is expected, exactly one process name was found, and the trace gives back these facts as they were found.",
  over=["inputs"], quant="every sequence of trace events",
  why="The tests parse a handful of small traces; silently dropping, duplicating or mixing up one event depends on combinations of events they do not hold.",
  files=["clang-time-trace/src/lib.rs"], mech=[("ClangTrace::from_str", "clang-time-trace/src/lib.rs FromStr for ClangTrace"), ("ClangTrace::from_file", "clang-time-trace/src/lib.rs")],
  technique=TS + " (events fetched against events recorded, checks made against outcome)", note="All paths, any number of events. JSON decoding (serde) is trusted; what single event parsers accept is T02."),
 dict(id="T02", title="Trace events are decoded strictly and exactly",
  statement="An event is only accepted as an activity, global statistic, process name or thread name if its kind, process and thread identifiers, timestamp and absent fields are as expected, and if every argument that it carries was expected; anything else is an error, and nothing valid is rejected. "
            "The decoded value holds exactly the name, start, duration, count and detail string of the event, and the name of an activity is the one of the event, known or not.",
  over=["inputs"], quant="every trace event",
  why="The tests vary one field of one event at a time; accepting or altering an event can depend on any combination of fields and argument values.",
  files=["clang-time-trace/src/stats/activity/mod.rs", "clang-time-trace/src/stats/global.rs", "clang-time-trace/src/metadata.rs"],
  mech=[("ActivityStat::parse", "clang-time-trace/src/stats/activity/mod.rs"), ("GlobalStat::parse", "clang-time-trace/src/stats/global.rs"), ("parse_process_name", "clang-time-trace/src/metadata.rs"), ("activity table", "clang-time-trace/src/stats/activity/mod.rs generate_activities!")],
  technique="path-sensitive analysis of interprocedural MIR (facts known on accepting and rejecting paths, provenance of result fields), comparison of the activity name tables", note="All paths of the event parsers. That the kind of argument assigned to each known activity matches what clang emits is not decided."),
 dict(id="T03", title="The activity tree reflects how activities nest in time",
  statement="An activity that is inserted into the activity tree becomes the parent of exactly the earlier parentless activities that do not start before it, and owns all of their descendants; insertion fails exactly if activities partially overlap or end out of order. "
            "Once the tree is built, every activity without a parent is a root, and the parent, direct children, all children, roots, all activities and identifier lookup views enumerate exactly the activities they are named after, each view giving the data that was recorded for it. "
            "The self-duration of an activity is its duration minus that of all of its direct children.",
  over=["inputs", "histories"], quant="every sequence of activities",
  why="The tests build trees of a few activities; which of its predecessors an activity adopts depends on the times of all of them, at any nesting depth.",
  files=["clang-time-trace/src/tree.rs"], mech=[("insertion", "clang-time-trace/src/tree.rs ActivityTreeBuilder::insert"), ("roots", "clang-time-trace/src/tree.rs ActivityTreeBuilder::build"), ("views", "clang-time-trace/src/tree.rs ActivityTrace, ActivityTree")],
  technique=TS + " (facts known about each candidate against what is recorded), value provenance of the views", note="All paths, any number of activities. Floating-point rounding of times and sums is not decided, only which quantities enter them.") ,
 dict(id="T05", title="Activity arguments are interpreted by their kind, losslessly",
  statement="Parsing the argument of an activity gives a result of the kind that the activity calls for and that is computed from the whole text of that argument alone: the text itself, the interned path, the parsed entity, or the symbol without its enclosing parentheses, demangled and parsed as far as possible. "
            "Fixed texts ('[module]', '<unnamed loop>', no text) are recognized exactly, and parsing fails if and only if the text is not valid for its kind. Resolving a parsed argument gives the same kind and the data that its key stands for in that trace.",
  over=["inputs", "histories"], quant="every kind of argument, argument text and sequence of parsed arguments",
  why="The tests parse one or two texts per kind, each with a new parser; mixing up texts or leftovers of previous symbols takes inputs and sequences that they do not hold.",
  files=["clang-time-trace/src/stats/activity/argument.rs"], mech=[("RawActivityArgument::parse", "clang-time-trace/src/stats/activity/argument.rs"), ("ParsedActivityArgument::resolve", "clang-time-trace/src/stats/activity/argument.rs")],
  technique=TS + " (facts known about text and kind against the result), value provenance", note="All paths. The C++ parser, path interner and demangler are taken as given here; what they accept is not decided by this check."),
 dict(id="U01", title="A failed full-build measurement keeps the previous profile",
  statement="A full-build measurement started from the user interface only starts once the previous profile, if any, was moved out of its way. "
            "However the measurement ends (error, interruption by the user, panic, failure to start), the previous profile is brought back, or the partial output is deleted if there is none, after the measurement is over and unless it succeeded; a successful measurement's output is kept. "
            "Success is reported exactly for measurements that succeeded, and the user interface is always told when the measurement is over.",
  over=["fault_sequences", "schedules"], quant="every exit path of the measurement dialog, unwinding included, and every result of the measurement",
  why="Nothing tests the user interface; the previous profile is only lost if the measurement ends in one specific way or at one specific moment.",
  files=["src/ui/tui/build/measure.rs"], mech=[("measurement handle", "src/ui/tui/build/measure.rs MeasureHandle"), ("measure_profile", "src/ui/tui/build/measure.rs")],
  technique=TS + " with unwinding edges (typestate of the output file against state and result of the measurement)", note="All paths of the function that owns the measurement. That the renames themselves are atomic is the file system's business."),
 dict(id="U02", title="A failed time-trace measurement keeps the user's previous trace",
  statement="A time-trace measurement started from the user interface only starts clang once the previous trace at the output path, if any, was moved out of its way. "
            "If clang cannot be started, fails or is interrupted, then, once it is gone, the previous trace is brought back, or the partial output is deleted if there is none, and no trace is displayed. If clang succeeds, its output is kept and is the trace that gets displayed, once.",
  over=["fault_sequences", "schedules"], quant="every exit path of the time-trace measurement and its thread",
  why="Nothing tests the user interface; the previous trace is only lost if clang ends in one specific way or at one specific moment.",
  files=["src/ui/tui/trace/measure.rs"], mech=[("start_measure", "src/ui/tui/trace/measure.rs"), ("TraceBackup", "src/ui/tui/trace/measure.rs")],
  technique=TS + " (typestate of the trace file against state and exit status of clang)", note="All normal paths of the starting function and of the thread that awaits clang; panics of the thread are not covered."),
 dict(id="U03", title="Nothing is measured anew or reused outdated without the user agreeing",
  statement="Before a full-build profile or time trace at a path that the user did not choose manually is used, the user is asked unless that product exists, is newer than what it derives from, and is less than a minute old; nonexistent and outdated products always lead to a question. "
            "Measurement happens exactly if the user agrees to it; if the user declines, the existing product is displayed if there is one, and quitting the dialog displays and measures nothing. The product whose freshness is looked at, that which is measured and that which is displayed are the one at the same path.",
  over=["inputs", "histories"], quant="every freshness and age of the product and every answer of the user",
  why="Nothing tests the user interface; which question is asked and what its answers do depends on file times and choices.",
  files=["src/ui/tui/create.rs", "src/ui/tui/build/mod.rs", "src/ui/tui/trace/measure.rs"], mech=[("CreatePrompt", "src/ui/tui/create.rs"), ("update_profile", "src/ui/tui/build/mod.rs"), ("show_wizard", "src/ui/tui/trace/measure.rs")],
  technique=TS + " (freshness facts against prompts, answers against measurements), value provenance of paths", note="All paths, with the button callbacks run as code for every prompt; assumes the toolkit calls a button's callback when it is pressed."),
 dict(id="U04", title="An aborted trace load has no effect; a completed one is shown once",
  statement="While a trace is loaded, a waiting screen is shown; however loading ends (success, failure, abort), that screen, the refresh rate and the handling of the Escape key are restored exactly once, before anything else is shown. "
            "After an abort the later completion of the load changes nothing and the processing thread is replaced, or crofiler quits if there is nothing else to show. A failed load is reported to the user, a successful one is displayed exactly once with percentages relative to that trace.",
  over=["schedules", "fault_sequences"], quant="every result of a load and every moment at which it is aborted",
  why="Nothing tests the user interface; whether an abort has no effect depends on when the load completes.",
  files=["src/ui/tui/trace/load.rs"], mech=[("show_loader", "src/ui/tui/trace/load.rs"), ("waiting screen", "src/ui/tui/trace/load.rs start_wait_for_input, end_wait_for_input")],
  technique=TS + " (typestate of the waiting screen over the loader, its button and completion callbacks)", note="All normal paths. The closures given to the toolkit are run in every state that may precede them."),
 dict(id="U08", title="Measurement screens close on every outcome, and Abort works",
  statement="The screen shown while a full build or time trace is measured is closed exactly once when the measurement is over, however it ends, before any dialog or the loader is shown, with the refresh rate and Escape key handling restored. Failures are reported to the user. "
            "The Abort button of the time-trace measurement sets a flag that the thread awaiting clang polls between any two waits, which all have a timeout; once it is set, clang is killed.",
  over=["schedules", "fault_sequences"], quant="every outcome of a measurement and every moment at which it is aborted",
  why="Nothing tests the user interface; a screen left open, or an abort that is not noticed, takes a specific failure or moment.",
  files=["src/ui/tui/trace/measure.rs", "src/ui/tui/build/measure.rs"], mech=[("start_measure, end_measure", "src/ui/tui/trace/measure.rs"), ("measure_profile", "src/ui/tui/build/measure.rs")],
  technique=TS + " (typestate of the waiting screen; abort flag against timed waits)", note="All normal paths of the user interface and of the thread that awaits clang; assumes the toolkit runs each callback that it is sent."),
 dict(id="U05", title="The processing thread answers each request once, with what was asked for",
  statement="Each request that the user interface makes of the processing thread gets exactly one reply, on the channel where the requester waits, and the requester returns that reply: the metadata of the trace, exactly the root, all, direct child or all child activities that were asked for with their own identifier, durations and presence of children, or the descriptions of exactly the requested activities in order, made for the requested width. "
            "Loading a trace calls the callback exactly once with the actual outcome, and everything answered afterwards is computed from the trace that was loaded last.",
  over=["inputs", "histories"], quant="every sequence of requests and every trace",
  why="Nothing tests the processing thread; a missing or doubled reply, or a reply about something else, shows only in specific sequences of requests or for specific activities.",
  files=["src/ui/tui/processing.rs"], mech=[("requests", "src/ui/tui/processing.rs ProcessingThread"), ("replies", "src/ui/tui/processing.rs worker")],
  technique=TS + " (request/reply protocol composed over both threads), value provenance of replies", note="All paths of both sides. The functions of the trace library and of the display module that answers are made of are taken as given."),
 dict(id="U06", title="Cached activity descriptions are never stale",
  statement="Whatever the sequence of loads, width changes and requests, a description or parsed argument that the processing thread takes from a cache is the one of the requested activity in the trace that was loaded last, and a cached description was made for the currently requested width. "
            "Each description is the text made for that activity alone.",
  over=["histories", "inputs"], quant="every sequence of loads, widths and requested activities",
  why="Nothing tests the processing thread; a stale entry shows only after specific sequences of loads, terminal width changes and requests.",
  files=["src/ui/tui/processing.rs"], mech=[("caches", "src/ui/tui/processing.rs worker, describe_activities, describe_activity")],
  technique=TS + " (contents of each cache against trace and width, through the variable that remembers the width)", note="All paths and sequences of requests, unbounded."),
 dict(id="U09", title="The list of profiles always matches the profiles on screen",
  statement="Each profile put on screen is added to the list of profiles and each one taken off it (Escape, flat/hierarchical toggle, return to a chosen ancestor) is removed from it, so that list and screen always agree and Escape never closes the last layer or acts while it is disabled. "
            "The toggle replaces a profile by its counterpart under the same name and percentage reference, and toggling back shows the original activities again. "
            "The backtrace lists every displayed profile exactly once and choosing one closes exactly the profiles above it.",
  over=["histories", "inputs"], quant="every sequence of zooms, toggles, returns and closed layers",
  why="Nothing tests the user interface; a list that is out of step with the screen shows only after specific sequences of actions.",
  files=["src/ui/tui/trace/display.rs", "src/ui/tui/init.rs"], mech=[("profile stack", "src/ui/tui/trace/display.rs show_profile, make_profile_view"), ("exit_current_layer, backtrace_dialog", "src/ui/tui/init.rs")],
  technique=TS + " (effect of every function and callback on the profile list against its effect on the screen)", note="All normal paths of every function and callback that touches the list. Assumes that the layers below the profiles are those counted when the first was shown, which the check of screens (U04, U08) supports."),
 dict(id="U10", title="Profiles show, zoom, sort and scale the activities they are about",
  statement="A profile has one row per activity it is about, with that activity's own identifier, durations and description; a row is marked and can be zoomed iff its activity has children, zooming shows exactly that activity's children relative to its duration (flat: all its descendants), and the description pane shows the selected activity. "
            "Cells, headings and row order are those of the column's own quantity, displayed as time or as a percentage of the whole trace or of the profile's own parent, and also for activities that take no time. "
            "Changes of the unit or sort order reach every displayed profile and all later ones.",
  over=["inputs", "histories"], quant="every trace and every sequence of zooms, unit changes and sort changes",
  why="Nothing tests the user interface; a wrong row, reference or order shows only for specific activities or after specific sequences of actions.",
  files=["src/ui/tui/trace/display.rs", "src/ui/tui/trace/mod.rs"], mech=[("rows and columns", "src/ui/tui/trace/display.rs make_profile_data, HierarchicalData, add_duration_cols_and_sort"), ("zoom, select, switch_duration_unit, sort_other_profiles", "src/ui/tui/trace/display.rs"), ("percent_norm", "src/ui/tui/trace/mod.rs")],
  technique="Interprocedural value provenance and path-sensitive typestate over the MIR", note="All normal paths. Requests to the processing thread and the toolkit's table are taken as given (U05, U06). Textual rounding of numbers and truncation of descriptions are out of scope."),
 dict(id="S01", title="Interning keys identify items and sequences exactly",
  statement="Interning an item, or a sequence at once or item by item, in nested fashion or not, always returns a key that resolves to exactly that item or sequence, forever, also after finalization; two interned items or sequences get the same key iff they are equal. "
            "Removing items from an entry, or abandoning it, never affects sequences interned before, and nothing of one sequence leaks into another. A range that a key cannot represent is refused rather than truncated.",
  over=["inputs", "histories"], quant="every sequence of interning operations and every sequence",
  why="Unit tests intern a handful of sequences; a wrong key, comparison, hash or rollback only shows for specific histories (collisions, abandoned entries, table growth, long sequences).",
  files=["asylum/src/sequence.rs", "cpparser/src/interning/recursion.rs"], mech=[("SequenceInterner, SequenceEntry, SequenceKey", "asylum/src/sequence.rs"), ("RecursiveSequenceInterner", "cpparser/src/interning/recursion.rs")],
  technique=TS + " (lookup, storage and recording of keys), bit-field abstract domain for the packing of keys", note="All normal paths of every function that touches the stored sequences. RawTable and Vec are taken as documented; a panic when the key space is exhausted is allowed."),
 dict(id="S02", title="Interned paths are normalized as documented and restored in full",
  statement="Interning a relative path is an error, and never one for absolute paths. An absolute path is interned component by component: '.' is ignored, '..' removes the component before it but never the root, and everything else is kept as is and in order. "
            "Retrieving a path yields exactly its components in order, and two retrieved paths are equal iff they have the same key in the same collection.",
  over=["inputs"], quant="every path",
  why="Unit tests sample a few paths; a mistake shows for specific combinations of components only.",
  files=["asylum/src/path.rs"], mech=[("PathInterner::intern", "asylum/src/path.rs"), ("InternedPath", "asylum/src/path.rs")],
  technique=TS + " (one operation per kind of component, guards evaluated over the number of components), value provenance", note="All normal paths. std::path parsing of components is taken as documented."),
 dict(id="P01", title="Displaying a C++ entity leaves nothing out, except behind an ellipsis",
  statement="Displaying a parsed C++ entity without a limit shows every component that it was parsed into; components that have no text of their own (flags, qualifiers, absent options) are told apart by the text around them, and lists are shown in full, in order, with separators between the items only. "
            "Under a recursion limit, components are left out only where an ellipsis says so, and every nested part is displayed to the same destination under the same limit.",
  over=["inputs"], quant="every entity that can be parsed, every recursion limit",
  why="The product of all components and limits is not enumerable by tests; a component that gets lost shows only for specific combinations (e.g. both a qualifier and a placement, in one of four contexts).",
  files=["cpparser/src/subparsers", "cpparser/src/interning/slice.rs", "cpparser/src/display.rs"], mech=[("CustomDisplay implementations", "cpparser/src/subparsers display_impl"), ("SliceView", "cpparser/src/interning/slice.rs display_impl"), ("DisplayState", "cpparser/src/display.rs")],
  technique="Path-sensitive enumeration of all display paths over the MIR: component coverage against the type's component tree, text injectivity per function", note="All normal paths of all display functions. Relies on views containing what was parsed (P03). The texts themselves (spelling of keywords) are out of scope; identifiers, literals and numbers are taken as displayed by their own Display."),
 dict(id="P02", title="Bounded display: exact depths, never wider than asked, as deep as fits",
  statement="The recursion depth of an entity is exactly the smallest limit under which nothing of it is left out, and a limit of n allows n nested levels along every branch, however often the same state is used. "
            "A display bounded to some width tries increasing depths from 0 up to that depth and returns the last text that was measured to fit, or an ellipsis if none does.",
  over=["inputs"], quant="every entity that can be parsed, every width",
  why="Unit tests sample a few entities; a depth that is too small silently truncates specific combinations of nested entities, and a wrong bound overflows table columns only for specific widths.",
  files=["cpparser/src/display.rs", "cpparser/src/subparsers", "cpparser/src/interning/slice.rs"], mech=[("bounded_display, DisplayState, RecursionGuard", "cpparser/src/display.rs"), ("recursion_depth", "cpparser/src/subparsers")],
  technique="Path-sensitive symbolic terms of recursion depths compared to the parts displayed on matching paths; typestate of display buffers", note="All normal paths of all functions involved. That text width is computed right by unicode-width is taken as given; widths of 0 are rejected by an assertion."),
 dict(id="M08", title="No queued unit is overlooked by idle workers",
  statement="Each unit that is queued for or handed back to the workers, and the end of work, is signalled after it became visible, by a changed futex value and a wake-up (of every worker at the first and final signal), and workers are only awaited after the final signal. "
            "A worker only goes to sleep on the value it last acted upon, after it found its own, the shared and the other workers' queues empty since it read that value, and only ends without failure after the final signal and one more look at the queues. "
            "So work never waits while all workers that could take it sleep forever.",
  over=["schedules"], quant="every interleaving of the collecting thread and the workers",
  why="A lost wake-up needs a worker to look at the queues in a window of nanoseconds around a signal; tests run few schedules.",
  files=[M + "main.rs", M + "worker.rs", M + "mod.rs"], mech=[("signalling", M + "main.rs"), ("waiting for work", M + "worker.rs")],
  technique=TS + " (order of publication, signal, wake-up, queue inspection and sleep across threads)", note="The rules are sufficient for the absence of lost wake-ups given a sequentially consistent futex; weak memory orderings are not decided."),
 dict(id="D04", title="Each unit is compiled as its database entry says, and measured truly",
  statement="The process started to profile a unit, in a full build or a time trace, gets all arguments of that unit's compilation database entry in order, and runs in the entry's directory; a full build runs the entry's own program, a time trace runs the configured clang with -ftime-trace and the requested granularity ahead of these arguments. "
            "The recorded profile has the path of the entry's input, the largest memory usage sampled over the process tree at every poll, and, exactly if it was asked for, the time from before the start of the compiler until its exit was seen.",
  over=["inputs", "schedules"], quant="every compilation database entry and every evolution of the compiler's process tree",
  why="Tests compile a trivial file with a short command; an argument lost, a wrong directory or a sample not accounted for only shows with unusual commands or timing.",
  files=[M + "worker.rs", "cmakeperf/src/commands.rs", "src/ui/tui/trace/measure.rs"], mech=[("start_job", M + "worker.rs"), ("process_job", M + "worker.rs"), ("args", "cmakeperf/src/commands.rs DatabaseEntry"), ("time trace", "src/ui/tui/trace/measure.rs show_wizard")],
  technique=TS + " (provenance of each word, directory, sample and instant)", note="All paths, any number of arguments and samples. What shlex and sysinfo compute is trusted."),
 dict(id="P03", title="Views of parsed entities give access to exactly what was parsed",
  statement="The view of a parsed entity, type, value, name or list shows what its key (or value) stands for in the parser that it was asked from: variant by variant, component by component, absent components as absent, and lists in full and in order. "
            "Each accessor of a view returns the component of its name, whatever the other components are. Two views are equal exactly if they show the same key (or value) of the same parser.",
  over=["inputs"], quant="every entity that can be parsed, every accessor of every view",
  why="Most combinations of components never occur in tests; a component that is exchanged, filtered or invented for some combinations is displayed plausibly, and goes unnoticed.",
  files=["cpparser/src/subparsers", "cpparser/src/interning/slice.rs", "cpparser/src/lib.rs"], mech=[("XyzView::new, accessors, PartialEq", "cpparser/src/subparsers"), ("SliceView", "cpparser/src/interning/slice.rs"), ("EntityParser accessors", "cpparser/src/subparsers")],
  technique="Symbolic exit values of all constructors and accessors over the MIR, compared structurally to the components of their input", note="All normal paths of all view constructors, accessors and hand-written comparisons. Relies on interners returning what was interned (S01); lookups of strings by lasso are taken as given."),
 dict(id="M09", title="Low memory stops the youngest workers, one at a time, and is noticed",
  statement="The available memory is examined at each polling interval, however many results arrive; while it is below the margin, the active worker that has been at its current unit for the shortest time is stopped and the margin shrinks in proportion to the threads left, until memory suffices or no worker is left. "
            "No worker is stopped while memory suffices; if none is left, the measurement fails for lack of memory and never claims to go on. "
            "The margin always covers the largest decrease of available memory seen between two examinations.",
  over=["schedules", "inputs"], quant="every history of available memory, results and worker progress, and every number of workers",
  why="Memory pressure cannot be provoked in a unit test, and which worker is stopped depends on when each started its unit.",
  files=[M + "main.rs", M + "worker.rs", M + "mod.rs"], mech=[("reaction to low memory", M + "main.rs"), ("elapsed times", M + "worker.rs")],
  technique=TS + " and symbolic evaluation of the margin's updates", note="A hand-written search for the youngest worker is accepted if it compares elapsed times (recorded as assumed); that the operating system reports memory truly is not decided."),
 dict(id="U07", title="The text report shows what was measured, in full or saying what is left out",
  statement="Non-interactive use of a trace either tells why it cannot be loaded or prints its metadata (process, pid, thread, start date; whatever their values), a breakdown of self-durations by activity type, the hottest activities, and a tree for every root activity; lines keep to the columns available, losing figures before descriptions, and no column limit makes the report crash. "
            "Every entry shows its own name, own interpreted argument, own time (self-duration in breakdown and flat profile, duration in the tree) and its percentage of the total of the root activities. "
            "Exactly the entries whose share reaches the threshold of their section are shown, in decreasing order; how many are left out, and below which threshold, is said iff there are any.",
  over=["inputs"], quant="every trace, thresholds, column limit and terminal size",
  why="Nothing tests the report, and its mistakes need specific traces (several roots, shares exactly at the threshold, a single omitted entry) or specific widths.",
  files=["src/ui/stdio.rs", "src/trace.rs", "src/ui/display/metadata.rs", "src/ui/mod.rs"], mech=[("sections, lines, tree", "src/ui/stdio.rs run, hierarchical_profile_tree, display_activity"), ("selection, order, breakdown, norm", "src/trace.rs"), ("metadata", "src/ui/display/metadata.rs"), ("force_parse_arg", "src/ui/mod.rs")],
  technique="Interprocedural value provenance and path-sensitive typestate over the MIR, with sampled numeric domains for thresholds, counts and widths", note="All normal paths; the children of a node by induction over the recursive function. Descriptions of activities and durations are displayed as given (display_activity_desc, display_duration are opaque), and rounding is out of scope."),
 dict(id="P04", title="Parsing a C++ entity keeps every component that was recognized, in its place",
  statement="Whatever the parsers of C++ entities recognize beyond fixed text and spaces becomes part of the entity that is returned: each component is stored, in the place that its position in the text stands for, each optional word or qualifier makes a difference, and lists keep all items, in order, once. "
            "Where that is not possible (such as parameters after an ellipsis), the text is not accepted. An entity is accepted only if it was parsed up to the end of the input.",
  over=["inputs"], quant="every text that the parsers accept",
  why="Test inputs are a handful of spellings; a component that is lost only in combination with others (a qualifier after __restrict, a repeated scope) silently merges entities that differ, in the profile of a user with millions of names.",
  files=["cpparser/src/subparsers", "cpparser/src/lib.rs"], mech=[("functions given to nom combinators", "cpparser/src/subparsers"), ("hand-written parsers", "cpparser/src/subparsers/names/scopes.rs"), ("EntityParser::parse_entity", "cpparser/src/lib.rs")],
  technique="Type queries over combinator instances for outputs thrown away; path-sensitive flow of each parsed component into the result of each function given to a combinator, and of each parser called by hand", note="All combinator instances and functions of the crate. What nom's combinators themselves do, and which texts are recognized (precedence of alternatives), are taken as given. Qualifiers of scopes and of template names that demanglers print without a meaning are exempt by a list in the check. That flags of the same function are not exchanged is decided by type, or by field order for equal types."),
 dict(id="U11", title="Displays cope with terminals and column limits of any size",
  statement="Whatever the size that the terminal reports, or the column limit that the user asks for, computing the widths of views, columns and texts never underflows (which would crash debug builds, and ask for absurd widths elsewhere), and displays which need at least one column are never asked for none.",
  over=["inputs"], quant="every size of the terminal, from zero columns and lines up, and every column limit",
  why="Tests never open the interface; a subtraction of a margin looks fine on any terminal that a developer uses, and crashes the program of the user whose window is small, not yet sized (0x0 in some containers), or tiled.",
  files=["src/ui/stdio.rs", "src/ui/tui"], mech=[("description_column_width", "src/ui/tui/trace/display.rs"), ("show_profile", "src/ui/tui/trace/display.rs"), ("display_profile", "src/ui/tui/build/display.rs"), ("run", "src/ui/stdio.rs")],
  technique="Interprocedural taint from the reads of the terminal size and column limits, with interval and path-condition facts that must prove each subtraction and each lower bound of columns", note="Parameters of functions carry the least bound over all their callers. What cursive and termion do with sizes is taken as given, and so are the display functions in src/ui/display, which check the columns they are given (U07, U08)."),
 dict(id="U12", title="Descriptions show the name and whole argument, cut only to fit",
  statement="An activity is described by its name, then its argument in parentheses if it has one, each kind of argument showing what it holds, and failures to write are reported. On one line, the argument is cut to the columns that remain, the line never wraps, and the description is given up, before anything is written, only if the name and an ellipsis do not fit. Over several lines nothing is cut, and texts that fit are shown as is (others as their start, an ellipsis and their end; views show an ellipsis for what is given up).",
  over=["inputs"], quant="every activity, kind of argument, layout and number of columns",
  why="Tests try a few arguments on one line, never over several lines, nor modules, unnamed loops or full devices; descriptions are what users identify activities by, and a kind of argument, a layout or a width at the limit that is mishandled only shows on traces that have it.",
  files=["src/ui/display/activity.rs", "src/ui/display/mod.rs", "src/ui/tui/processing.rs"], mech=[("describe_activity", "src/ui/tui/processing.rs"), ("display_activity_desc", "src/ui/display/activity.rs"), ("display_string", "src/ui/display/mod.rs")],
  technique="Path-sensitive automaton over the pieces written to the output, with the conditions on each path and the columns passed on evaluated over sample widths", note="Where the cut of a long text or path falls is not decided (it depends on loops over widths of graphemes); nor is what bounded displays of entities leave out. Widths are compared on a grid of samples around the limits, not proved for all."),
 dict(id="N01", title="Every C++ entity that clang prints is parsed into what it means",
  statement="Parsing accepts every entity name that clang writes into time traces, and attributes every token of it to the syntactic role it has in C++.",
  over=["inputs"], quant="every entity name printed by clang",
  why="Tests hold a corpus of names; the C++ grammar is ambiguous and clang's printer has many quirks.",
  files=["cpparser/src/subparsers"], mech=[("parse_entity", "cpparser/src/lib.rs")], technique="none", note=""),
 dict(id="N02", title="Percentages and self-durations of a profile add up",
  statement="Up to rounding, self-durations of all activities of a trace add up to the duration of its root activities, and displayed percentages to 100%.",
  over=["inputs"], quant="every trace", why="Floating-point rounding and clang's microsecond truncation depend on all durations of a trace.",
  files=["clang-time-trace/src/tree.rs"], mech=[("self_duration", "clang-time-trace/src/tree.rs")], technique="none", note=""),
 dict(id="N03", title="Measured peak memory and times are accurate",
  statement="The peak memory usage and times recorded for a unit are those of its compiler, up to the sampling interval.",
  over=["schedules"], quant="every compiler run", why="They depend on the timing of the sampled processes.",
  files=["cmakeperf/src/measure/main.rs"], mech=[("memory polling", "cmakeperf/src/measure/mod.rs")], technique="none", note=""),
 dict(id="N04", title="Inputs of any size and nesting are processed without crashing",
  statement="No trace or entity, however large or deeply nested, exhausts the stack, the interning key space or memory.",
  over=["inputs"], quant="every size and nesting depth of the input", why="Only inputs of extreme size show it.",
  files=["cpparser/src/subparsers", "asylum/src"], mech=[("recursive descent", "cpparser/src/subparsers"), ("InternedKey", "asylum/src")], technique="none", note=""),
 dict(id="N05", title="Memory pressure stops workers before the system runs out of memory",
  statement="While a full build is profiled, the number of running compilers is reduced early enough for available memory never to be exhausted.",
  over=["schedules"], quant="every memory allocation behaviour of the compilers", why="It depends on the speed at which compilers allocate memory.",
  files=["cmakeperf/src/measure/main.rs"], mech=[("oom watch", "cmakeperf/src/measure/mod.rs")], technique="none", note=""),
]
NOT_APPLICABLE = [
 dict(property="N01", reason="The oracle is the C++ grammar as clang prints it, which is outside of the source; deciding language inclusion for a backtracking recursive-descent parser over arbitrary strings is out of reach of a sound static argument. What static analysis can say about parsing (kinds of results, no lost parts) is claimed separately."),
 dict(property="N02", reason="Quantifies over sums of floating-point durations of arbitrary traces; which quantities enter the sums is decided by T03 and U10, their numeric accuracy is a runtime quantity."),
 dict(property="N03", reason="Depends on when the operating system schedules the poller and the compiler; no property of the source bounds it."),
 dict(property="N04", reason="Recursive descent without a depth limit and 2^n-1 interning keys are bounded only by the size of the input, and the size of the stack is not a property of the source."),
 dict(property="N05", reason="Liveness against arbitrary allocation rates of external processes; no property of the source bounds it."),
]
