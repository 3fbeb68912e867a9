#!/usr/bin/env python3
"""Write MANIFEST.json from this table and properties.jsonl."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "TLA+ specification %s checked with TLC; %s"
CHECKS = {
 "P01": ("ActivityTree", "behaviours generated by TLC (exhaustive small scope + simulation) replayed into ClangTrace::from_str and compared node by node",
         "All traces of up to 4 (thorough 5) activities on a small clock, plus long simulated ones; invariants of the spec are exhaustive in that scope. Trusts the mapping of abstract clock values to JSON numbers."),
 "P03": ("ActivityArgs (with ActivityTable)", "every generated activity (type, way of writing it, argument text) is loaded and parsed by the real code and compared with the argument the spec derives",
         "All 122 activity types and 9 argument kinds, exhaustive over the listed argument shapes, plus long simulated traces. Argument texts are a finite selection; C++ names inside arguments are judged by P06."),
 "P04": ("ItemIntern and SeqIntern", "interning histories generated by TLC, with key spaces small enough to overflow, replayed into asylum's interners",
         "Exhaustive for small alphabets and lengths, simulated beyond. Key packings other than the ones instantiated in the harness are not exercised."),
 "P05": ("PathIntern", "interning histories over generated spellings of paths replayed into asylum's PathInterner",
         "Exhaustive for short paths, simulated for longer ones and longer sessions. The number of distinct components is only bounded from both sides."),
 "P06": ("CppNames", "names derived by the spec's grammar, with every level of detail, are read by the real parser in sessions and their display compared at every level and width",
         "Exhaustive for small derivations of four parts of the grammar, simulated derivations up to 160 characters for all of it. Ambiguous spellings are excluded from the grammar. Junk text is only required not to crash and not to depend on the session."),
 "P07": ("BuildMeasure (with BuildTrace)", "behaviours generated by TLC are played on real measured builds whose jobs wait for orders, and logs of unattended builds are validated against the spec by TLC",
         "Exhaustive completion orders for few jobs and workers, simulated for more. Interleavings inside the measurement threads are the operating system's, except in the job queue (P10)."),
 "P08": ("BuildMeasure (with BuildTrace)", "behaviours generated by TLC, with memory levels changing at every step, are played on real measured builds whose /proc/meminfo is simulated",
         "Only shortages that clearly call for a stop, or clearly do not, are generated: the exact margin is left open. Job memory is simulated through the system-wide figure only."),
 "P09": ("BuildMeasure (with BuildTrace)", "behaviours generated by TLC, with every fault and cancellation point, are played on real measured builds; process table and callbacks compared",
         "Jobs that ignore SIGTERM are left out. Promptness is judged with limits of several seconds."),
 "P10": ("WorkQueue, refined by WorkQueueFutex (with WorkQueueProgram)", "TLC checks the algorithm refines the abstract queue; programs generated by TLC are run on the real queue under a controlled scheduler, over all schedules within a preemption bound, and each outcome compared",
         "Sequentially consistent schedules of atomics, futex and deque operations; weak memory effects are out of reach. Up to three workers and a few jobs."),
 "P11": ("Freshness, and BuildSession for the questions asked", "every combination of modification times that the specification reaches is set up with real files and the freshness reported by the real code compared; sessions in which profiles and time-traces of every age meet every kind of change are played on the real program and its questions compared",
         "Exhaustive over the histories of the specification for two inputs (thorough: three), six time scales and kinds of files. Ages shown in questions are eight chosen ones."),
 "P12": ("BuildSession (with Viewer and Freshness)", "every transition of small instances and long simulated sessions, with compilers that succeed, fail or are aborted at any point and files modified in between, are played on the real program in a scratch build directory; after every step its screen and all files are compared with those the spec derives",
         "Exhaustive for one or two compilation units and the keys that matter, simulated for three units. Compilers are scripts that act when the specification says so; power failures and full disks are left out."),
 "P13": ("Viewer (with Report, Shorten and ShortNames)", "every transition of small instances and long simulated histories of keys are played on the real interactive viewer through a pseudo-terminal, and every screen compared with the one the spec derives",
         "Exhaustive for traces of 3 to 5 activities and chosen sets of keys, simulated histories of up to 60 (thorough 120) keys on up to 16 activities. Keys are pressed once the screen shows the effect of the previous one; the screen is read by a terminal emulator of our own."),
 "P14": ("Viewer (with Report, Shorten and ShortNames)", "every transition of small instances and long simulated histories of keys and resizes are played on the real interactive viewer through a pseudo-terminal, and every screen compared with the one the spec derives",
         "Exhaustive for traces of 1 to 3 activities, several widths and chosen sets of keys, simulated histories on up to 16 activities. Percentages are compared up to rounding; in a terminal narrower than the one a profile was opened in, rows are judged as far as visible."),
 "P15": ("Report (with Durations, LongActivity and Header)", "traces of generated compiler runs are given to the command-line program and its whole report compared with the one the spec derives",
         "Exhaustive for up to 3 activities, simulated up to 14; thresholds that are met exactly are left out. Narrow windows are only checked for size and completeness here, for contents in P16."),
 "P16": ("ShortNames", "activities described by the spec at every width are displayed by the command-line program in windows of every width and compared",
         "28 chosen activities at every width up to 90 columns, plus simulated texts and paths. C++ names are shortened with given levels of detail; the levels themselves are P06's."),
 "P17": ("ProfileCsv for reading back, BuildSession for display", "build profiles written by a model of the recorder, intact or damaged, are read back by the real loader; every transition of small instances and long simulated histories of keys are played on the real build viewer through a pseudo-terminal and every screen compared",
         "Exhaustive over small profiles with the listed kinds of rows and over tables of three units (thorough: four), simulated for ten units. Files with negative or endless times are read back, but not displayed."),
 "P18": ("CompDb and Shell", "generated compilation databases and generated command lines are loaded by the real code and every field compared",
         "Exhaustive over short command lines of the listed characters, simulated for longer ones."),
 "P02": ("TraceLoad", "every generated sequence of well- and ill-formed events is loaded by the real parser and its verdict compared",
         "Exhaustive over the listed event classes up to 3 (thorough 4) events, file-level variants up to 1 event, long simulated traces. Event classes are a finite selection of the ways a trace can be malformed."),
 "P19": ("JobTree", "behaviours generated by TLC, of jobs whose processes allocate, release, start others and end on command, are played on real measured builds and the recorded peaks and times compared with the bounds the spec derives",
         "Exhaustive in TLC for one job with three processes and for two jobs, a diverse part of which is played, and simulated jobs of up to six processes. Steps last many times the polling interval; the memory of an idle process is measured and given a tolerance; processes that hold memory start no others."),
 "P20": ("BuildSession and ClangVersion", "every kind of missing or damaged part, every kind of answer of clang++ about its version and simulated sessions with quitting at every point are played on the real program in a scratch build directory; its screens, files, compilers and end compared",
         "Exhaustive over the listed defects and version lines and over the keys of small sessions, simulated for longer ones."),
}
NA = {
}
props = [json.loads(l)["id"] for l in open(ROOT + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": []}
HOOK_COMMITS = ["4c2787c13dd6623b33f06bc57b9856ff7c64b7c9"]
if HOOK_COMMITS:
    m["hooks"] = {"guard": "cfg(crofiler_verif)", "enable": "RUSTFLAGS='--cfg crofiler_verif' (vf/core.py, build_hooked)", "source_commits": HOOK_COMMITS}
for p in props:
    if p in CHECKS:
        spec, how, note = CHECKS[p]
        m["checks"].append({"property": p, "quick_cmd": "python3 check.py %s" % p, "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % p,
                            "technique": T % (spec, how), "level": "model_checking", "level_note": note})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "no check built yet")})
json.dump(m, open(ROOT + "/MANIFEST.json", "w"), indent=1)
