#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as code so that it stays readable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,hook=None,state=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("P01","The activity tree is exactly the time nesting of the trace",
  "For every sequence of recorded activities listed by non-decreasing end time with no two of them partially overlapping, each activity appears exactly once, its parent is the first later-listed activity that starts no later than it does (none: it is a root), and its descendants are exactly the activities below it in that relation. An activity's self time is its duration minus the durations of its direct children. A trace whose activities are listed out of end-time order, or where two partially overlap, is rejected.",
  ["inputs"],"Every sequence of activity intervals: nesting depth, siblings, shared start or end times, zero-length activities, several roots, order and overlap faults at any position.",
  "The unit tests build three or four hand-written trees; the incremental algorithm's skip links only go wrong for particular combinations of siblings, depth and ties.",
  ["clang-time-trace/src/tree.rs","clang-time-trace/src/lib.rs"],
  [("incremental tree builder that walks back over earlier siblings","clang-time-trace/src/tree.rs ActivityTreeBuilder::insert/build"),("views on children, descendants and parent","clang-time-trace/src/tree.rs ActivityTrace")],
  ["clang_time_trace::ClangTrace: root_activities, all_activities, activity_trace; ActivityTrace accessors"])

p("P02","A trace loads exactly when it is well formed, and reports what it recorded",
  "Loading any JSON trace either succeeds or returns an error, never crashes: it succeeds exactly when there is one process name, at most one thread name, one consistent process id, no duplicated global statistic, only event kinds and event fields that clang's time-trace emits, and a numeric beginning of time if any. On failure the error names the first fault met in reading order (trace-wide metadata first, then event by event, missing process name last). On success process name, thread name, process id (absent when it is 1 or less), beginning of time and global statistics are those recorded in the file.",
  ["inputs","histories"],"Every sequence of trace events, well or ill formed, and every combination of trace-wide metadata.",
  "The tests load a handful of fixed traces with one fault each; they never combine or reorder faults, nor try degenerate traces such as one with no event.",
  ["clang-time-trace/src/lib.rs","clang-time-trace/src/metadata.rs","clang-time-trace/src/stats/global.rs","clang-time-trace/src/stats/activity/mod.rs","clang-time-trace/src/ctf"],
  [("event loop of the loader: merge_pid, duplicate checks","clang-time-trace/src/lib.rs from_str"),("event parsers","clang-time-trace/src/metadata.rs, stats/global.rs, stats/activity/mod.rs, ctf/")],
  ["clang_time_trace::ClangTrace::from_str / from_file and metadata accessors"])

p("P03","Every activity keeps its own kind and its own faithfully decoded argument",
  "In every loaded trace, each activity reports the kind named in its own event, and its argument decodes according to that kind into the file path, module name, C++ entity, symbol, loop or plain text of that same event, independently of what other activities the trace holds and of the order and number of times arguments are decoded. A missing, superfluous or ill-typed argument is rejected when the trace is loaded, and an argument that only fails to decode on request yields an error (or, for symbols, the least processed form available) rather than somebody else's argument or a crash.",
  ["inputs","histories"],"Every kind of activity with every class of argument, in any order, decoded in any order and repeatedly.",
  "Tests decode one activity at a time in a fresh parser; sharing between activities of one trace goes through a common interner and a shared demangling buffer.",
  ["clang-time-trace/src/stats/activity/mod.rs","clang-time-trace/src/stats/activity/argument.rs"],
  [("table from event name to activity and argument kind","clang-time-trace/src/stats/activity/mod.rs ACTIVITIES"),("two-stage argument parsing with shared interner and demangling buffer","clang-time-trace/src/stats/activity/argument.rs")],
  ["clang_time_trace::Activity::{id,name,raw_argument}, RawActivityArgument::parse, ParsedActivityArgument::resolve"])

p("P04","Interning is a bijection that survives every history",
  "Over any history of interning items and sequences, building sequences piecewise, abandoning them half-way and finalizing, two keys are equal exactly when the interned values are equal, and every key ever returned keeps resolving to its value, before and after finalization. Abandoning a partially built sequence leaves no trace: the reported numbers of entries and items, the longest sequence and all later keys are as if it had never been started. A value whose key would not fit is refused with a panic rather than given a colliding key.",
  ["histories"],"Every history of intern, get, begin, push, pop, commit, abandon and finalize over small alphabets, including key spaces small enough to run out.",
  "The tests intern a few fixed sequences in one order; the entry API mutates the shared backing store in place, so what matters is the order in which commits, rollbacks and lookups interleave.",
  ["asylum/src/lib.rs","asylum/src/sequence.rs"],
  [("item interner","asylum/src/lib.rs Interner"),("sequence interner, in-place entries with rollback, packed keys","asylum/src/sequence.rs")],
  ["asylum::Interner, asylum::sequence::{SequenceInterner, SequenceEntry, SequenceKey}"])

p("P05","Paths are interned by their normalized form",
  "For every absolute path, interning resolves `.` and `..` components and repeated separators without ever climbing above the root, and the interned path reads back as that normalized path. Two paths get the same key exactly when their normalized forms are equal, in every order of interning, and relative paths are rejected without changing anything. The number of paths and the longest one are exactly those of the distinct paths interned so far; the number of distinct components counts every component of those paths, and at most those written in some path besides.",
  ["inputs","histories"],"Every sequence of paths made of ordinary components, `.`, `..` and empty components, absolute or relative, of any length.",
  "Tests intern a few dozen literal paths; the rollback of `..` inside the shared store is only exercised with those literals and never in long sessions.",
  ["asylum/src/path.rs","asylum/src/sequence.rs"],
  [("component walk with in-place push/pop normalization","asylum/src/path.rs PathInterner::intern"),("path views","asylum/src/path.rs InternedPath")],
  ["asylum::path::PathInterner / InternedPath / InternedComponent"])

p("P06","C++ names read the same in any session, and shortening respects the width",
  "A C++ entity name gives the same displayed name at every level of detail, however long or deeply nested it is and whatever and however many names (valid or invalid) were read before in the same session, and two names get the same key exactly when they denote the same structure, whatever the spacing. The advertised nesting depth is the smallest level of detail whose display is complete, and a display limited to N columns (N at least 1) never occupies more than N columns, being the most detailed level that fits, or `…`. Unreadable names are reported as errors and leave earlier names intact.",
  ["inputs","histories"],"Every name derivable from the supported grammar up to a size bound, lists of any length, nests of any depth that the stack allows, every session (sequence of names) and every width.",
  "The parser tests check one construct at a time in a fresh parser; sessions share a dozen interners with recursive, abandoned and nested sequence building.",
  ["cpparser/src/lib.rs","cpparser/src/display.rs","cpparser/src/interning","cpparser/src/subparsers"],
  [("session-wide interners","cpparser/src/lib.rs EntityParser"),("recursive sequence entries","cpparser/src/interning/recursion.rs"),("recursion-limited and width-limited display","cpparser/src/display.rs, cpparser/src/interning/slice.rs")],
  ["cpparser::EntityParser::{parse_entity, entity}, cpparser::display::CustomDisplay, the simpp command"])

p("P07","A successful build measurement profiles every job exactly once",
  "When every compilation job of a measured build succeeds, the resulting profile holds exactly one row per job, with that job's path, a progress notification is made once per row, success is reported exactly once and after all of them, and each job's command ran exactly once, in its own directory, with its own arguments. This holds for any number of jobs and workers and any order in which jobs finish; no more jobs run at once than the requested concurrency, and time-measuring runs default to one at a time. Wall times are recorded exactly when asked for.",
  ["schedules","configurations"],"Every number of jobs and workers, every completion order, with and without time measurement.",
  "The test suite's end-to-end measurement tests are disabled by default, use at most two jobs and cannot choose the interleaving.",
  ["cmakeperf/src/measure/mod.rs","cmakeperf/src/measure/main.rs","cmakeperf/src/measure/worker.rs","cmakeperf/src/output.rs"],
  [("main loop: receive job profiles, write rows, count remaining","cmakeperf/src/measure/main.rs run"),("worker loop","cmakeperf/src/measure/worker.rs")],
  ["cmakeperf::measure::Measurement::start with instrumented jobs; the CSV file; callbacks"],
  "trace points in the measurement threads (guarded)")

p("P08","Memory pressure stops the youngest job, which is then always run again",
  "When free memory runs short during a measured build, only jobs that are running are stopped, youngest first, and every job stopped for that reason is run again later, so that the build still ends with exactly one row per job. Jobs are never stopped while memory is plentiful, and enough jobs are stopped for the shortage. If memory stays short with every worker already stopped, the build fails with an out-of-memory error instead of hanging or succeeding with rows missing.",
  ["schedules","fault_sequences"],"Every point at which memory runs short or recovers, with any number of running jobs, and every interleaving of stop requests with job completion.",
  "No enabled test exercises memory pressure, which depends on the machine; the races between a stop request and job completion need specific schedules.",
  ["cmakeperf/src/measure/main.rs","cmakeperf/src/measure/worker.rs","cmakeperf/src/measure/mod.rs"],
  [("monitor: out-of-memory margin, choice of victim, stop flags","cmakeperf/src/measure/mod.rs, main.rs, worker.rs"),("requeue of killed jobs","cmakeperf/src/measure/main.rs run")],
  ["Measurement::start run against a simulated memory gauge; job start/stop logs; CSV file; outcome"],
  "trace points in the measurement threads (guarded)")

p("P09","A failed or cancelled measurement ends once, promptly, leaving no job behind",
  "Whatever makes a measured build fail (a job exiting with an error, dying from a signal, failing to start, unusual output, an unwritable profile) or be cancelled, exactly one outcome is reported and it names that cause, with the failing job's own exit status and output. By then no new job is started and, once the measurement handle is dropped, no job is still running and no progress is reported any more. The amount or encoding of a job's output never makes the measurement hang or fail.",
  ["schedules","fault_sequences"],"Every fault at any job, at any time relative to the other jobs, and cancellation at any time.",
  "Tests that would run failing jobs are disabled by default, and none makes a job fail, print a lot or be cancelled while others run.",
  ["cmakeperf/src/measure/mod.rs","cmakeperf/src/measure/main.rs","cmakeperf/src/measure/worker.rs"],
  [("error propagation from workers","cmakeperf/src/measure/main.rs"),("kill flag and join on drop","cmakeperf/src/measure/mod.rs Measurement"),("process polling and output capture","cmakeperf/src/measure/worker.rs")],
  ["Measurement::start with faulty jobs; outcome callback; process table"],
  "trace points in the measurement threads (guarded)")

p("P10","No job handed to the workers is lost, duplicated or stranded in any schedule",
  "In every interleaving of the coordinator handing out jobs, closing the queue, and workers fetching, stealing and waiting for jobs, each job handed out before closing is fetched by exactly one worker. A worker waiting for a job always wakes up when a job is available to it or when the queue is closed, and every worker is told that there is no more work once the queue is closed and empty, and not before.",
  ["schedules"],"Every interleaving of pushes, close, local fetches, steals, waits and wake-ups for small numbers of jobs and workers.",
  "The queue's wake-up protocol is lock-free; its only test is a disabled end-to-end run that sees one schedule.",
  ["cmakeperf/src/measure/worker.rs"],
  [("futex-based job queue with work stealing","cmakeperf/src/measure/worker.rs WorkQueue, WorkSender, WorkReceiver")],
  ["the queue driven thread by thread along specified schedules"],
  "schedule points and access to the job queue (guarded)")

p("P11","Profiles are never taken for up to date when something they depend on changed",
  "A profile or compiler output is reported as missing when it does not exist, as outdated when it is older than the compilation database or than any of its inputs, and otherwise as possibly outdated with its age, for every combination and order of modifications of the files involved. The user is offered to measure again exactly when the profile is missing, outdated, or more than a minute old without having been designated explicitly; no age is told for a file from the future.",
  ["histories","inputs"],"Every history of creating, touching and deleting the database, the inputs and the derived files.",
  "Existing tests check a few literal entries and never vary modification times.",
  ["cmakeperf/src/commands.rs","src/ui/tui/create.rs","src/ui/tui/build/mod.rs","src/ui/tui/trace/measure.rs"],
  [("freshness comparison on modification times","cmakeperf/src/commands.rs"),("creation prompt","src/ui/tui/create.rs")],
  ["cmakeperf::commands::CompilationDatabase::profile_freshness, DatabaseEntry::derived_freshness; crofiler prompts in a terminal"])

p("P12","Measuring again never destroys an earlier profile unless a new one replaces it",
  "Over any history of measurements that succeed, fail or are aborted, a build profile or time-trace that existed before a measurement is still there with its contents afterwards unless the measurement succeeded, in which case the new one is in its place and is what gets displayed. If none existed, a failed or aborted measurement leaves none. Aborting returns to a state where one can measure again.",
  ["histories","fault_sequences"],"Every sequence of measurement attempts and their outcomes, with and without an earlier profile or leftover files of an earlier run.",
  "No existing test covers the interface code that moves profiles aside and back.",
  ["src/ui/tui/build/measure.rs","src/ui/tui/trace/measure.rs"],
  [("backup of the build profile","src/ui/tui/build/measure.rs MeasureHandle"),("backup of the time-trace and compiler output","src/ui/tui/trace/measure.rs")],
  ["crofiler in a terminal on a scratch build directory; the files after each step"])

p("P13","Navigation in the profile viewer never loses track of where one is",
  "Over any sequence of zooming, leaving, backtrace jumps, dialogs, flat/hierarchical switches and unit or sort changes, the displayed profile, the backtrace and the direction in which Esc leads agree on one stack of zoomed-in activities. Leaving a zoomed profile shows the previous one, a backtrace jump goes to exactly the chosen profile, the first profile cannot be left when there is nothing below, and switching the flat profile on and off returns to the same place. At most one dialog of the help/quit/backtrace kind is open at any time.",
  ["histories"],"Every sequence of user keystrokes over traces with nested activities.",
  "No existing test drives the text user interface.",
  ["src/ui/tui/init.rs","src/ui/tui/mod.rs","src/ui/tui/trace/display.rs","src/ui/tui/trace/load.rs"],
  [("layer bookkeeping","src/ui/tui/init.rs exit_current_layer, backtrace_dialog"),("profile stack and display modes","src/ui/tui/trace/display.rs")],
  ["the screen of crofiler running in a terminal"])

p("P14","Every row of the profile viewer describes its own activity, in the chosen unit",
  "At every moment the profile viewer lists each activity of the current profile exactly once (children of the zoomed activity in the hierarchical view, all activities in the flat view), ordered by the selected column. Each row shows its own activity's total and self duration in the current unit (absolute, share of the whole compilation, share of the zoomed activity), its own description and a mark exactly when it has callees; the description area shows the selected row's activity. This holds after any history of zooms, sorts, unit changes and terminal resizes.",
  ["histories","inputs"],"Every trace and every sequence of keystrokes and terminal sizes.",
  "No existing test drives the text user interface; descriptions come through an asynchronous worker with caches keyed by width.",
  ["src/ui/tui/trace/display.rs","src/ui/tui/processing.rs","src/trace.rs","src/ui/display/activity.rs"],
  [("table construction and sorting","src/ui/tui/trace/display.rs"),("processing thread and its caches","src/ui/tui/processing.rs")],
  ["the screen of crofiler running in a terminal"])

p("P15","The textual report accounts for every activity and every microsecond",
  "For every loadable trace and thresholds, the textual report lists, in decreasing order, exactly the activities whose share of the total duration reaches the threshold and counts all the others; the per-kind breakdown sums to the self time of all activities of the kind, largest first. The hierarchical part shows under each listed activity its own listed callees, and counts the ones left out. Lines use at most the requested number of columns, or the terminal's if that is less. The report is produced without crashing for every loadable trace, including traces with no or several top-level activities, or whose activities took no time at all (whose shares are then undefined).",
  ["inputs","configurations"],"Every loadable trace, threshold and width.",
  "No existing test runs the report; the computations are only exercised on one reference trace.",
  ["src/ui/stdio.rs","src/trace.rs"],
  [("report generation","src/ui/stdio.rs"),("aggregations and selection","src/trace.rs")],
  ["output of crofiler --ui stdio"])

p("P16","Shortened names fit in the requested width and only lose detail",
  "For every activity and every width, the displayed activity description, file path or C++ name never occupies more columns than available, keeps its kind's name in front, and shows its argument (left out when empty) in full whenever it fits in full. A shortened path always keeps the end of the file name, replaces each run of dropped directories by a single ellipsis, and shows only directories of that path in their original order.",
  ["inputs","configurations"],"Every path, string and entity argument, every width from the smallest to unlimited.",
  "Tests check a few literal paths and widths; truncation interleaves two cursors whose budget only goes wrong for particular component lengths.",
  ["src/ui/display/path.rs","src/ui/display/activity.rs","src/ui/display/mod.rs","cpparser/src/display.rs"],
  [("path truncation","src/ui/display/path.rs truncate_path_iter"),("description layout","src/ui/display/activity.rs")],
  ["descriptions printed by crofiler --ui stdio -c N"])

p("P17","Recorded build profiles read back and are displayed completely",
  "Whatever units, memory peaks and optional wall times a build profile records, loading it returns the same units with the same values in the same order, and a damaged profile, or a wall time that is no duration (negative, not finite, too large), is reported as an error. The build viewer lists every unit exactly once with its own values, under the path as recorded, with wall times when they were recorded for all units, ordered by the selected column, and opening a unit shows that unit.",
  ["inputs","histories"],"Every profile (paths with commas, quotes, spaces or non-ASCII letters included) and every sequence of sort and selection keys.",
  "One test loads a fixed literal profile; nothing covers writing, display or unusual paths.",
  ["cmakeperf/src/output.rs","src/ui/tui/build/display.rs","src/ui/tui/build/mod.rs"],
  [("CSV schema","cmakeperf/src/output.rs"),("units table","src/ui/tui/build/display.rs")],
  ["cmakeperf::output::load, wall_time; crofiler --build-profile in a terminal"])

p("P18","A compilation database yields each file's own command, directory and output",
  "For every list of compilation database entries, loading it and looking a source file up returns the last entry for that file, iteration yields each file exactly once, and files without an entry are reported absent. Each entry's program and arguments are those its command designates under shell quoting rules; its output is the explicitly recorded one or else the argument of the command's first `-o` resolved against the entry's directory, if any. Malformed databases and unknown fields are errors, not crashes or silently wrong commands.",
  ["inputs"],"Every list of entries with shell-quoted commands, duplicated files, explicit or implied outputs.",
  "Tests use a few literal entries without duplicates or quoting.",
  ["cmakeperf/src/commands.rs"],
  [("database keyed by input file","cmakeperf/src/commands.rs CompilationDatabase"),("command splitting and output inference","cmakeperf/src/commands.rs DatabaseEntry")],
  ["cmakeperf::commands::{CompilationDatabase, DatabaseEntry}"])

p("P19","Recorded memory peaks and times are those of the job's own processes",
  "The memory peak recorded for a job is the most that all processes of its tree held together at any moment the system was looked at during the job, and nothing that other jobs or the job's predecessors held. The recorded wall time runs from the start of that job's process to its end, up to the polling interval. Both hold whichever processes of the tree allocate, release, start others or end, in any order, at any depth.",
  ["histories","inputs"],"Every job, with any tree of processes that allocate, release, start others and end in any order, alone or beside other jobs.",
  "The tests that check accuracy with tolerances are disabled because they depend on machine load, and each measures one process that allocates once.",
  ["cmakeperf/src/measure/worker.rs","cmakeperf/src/measure/mod.rs"],
  [("polling of the process tree, sum over it, maximum over time","cmakeperf/src/measure/worker.rs")],
  ["the CSV file of real measured builds whose jobs allocate on command"])

p("P20","Every session reports what is missing and can be quit at any moment",
  "Before anything is measured or displayed, the build profiling mode checks that the compilation database, a clang++ of version 9 or later, and an existing build profile are usable: each thing that is missing, unreadable or unsuitable is reported with its own message and nothing is measured or modified, and everything that is usable is accepted. A session can be quit at any moment, after confirmation where something is shown, with a successful exit status and no compiler left running; declining changes nothing. Help is offered wherever a table is shown.",
  ["inputs","histories"],"Every combination of usable and unusable parts, every answer of clang++ about its version, and every sequence of keys.",
  "Tests for the detection of clang only run the one that is installed, and nothing drives a session.",
  ["src/clang.rs","src/ui/tui/build/mod.rs","src/ui/tui/init.rs","src/ui/tui/build/measure.rs","src/ui/tui/trace/measure.rs"],
  [("search for clang++","src/clang.rs find_clangpp"),("build profiling wizard","src/ui/tui/build/mod.rs"),("quit dialog and global keys","src/ui/tui/init.rs")],
  ["crofiler in a terminal on a scratch build directory"])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
