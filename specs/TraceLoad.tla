------------------------------ MODULE TraceLoad ------------------------------
(***************************************************************************)
(* Loading of a time-trace: a fold over the recorded events, in file order,*)
(* after checks on the file as a whole. One action per event; the state is *)
(* what the loader knows so far. The verdict is the first fault met.       *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxN,       \* number of events
          EmitMin,    \* emit traces with at least that many events
          Metas, Bots, Ctfs,   \* file-level variants explored
          GoodFirst   \* TRUE: faulty events only as last event

(* One class per way an event can be right or wrong *)
Act  == { [c |-> "act", pid |-> p, bad |-> b] :
            p \in {1, 7, 8},
            b \in {"", "oldtid", "tid", "noname", "cat", "tts", "tdur", "args"} }
Early == { [c |-> "early", pid |-> 7, bad |-> ""] }
(* fault "sf" and "esf" (stack traces) are on global statistics and activities alike *)
ActSf == { [c |-> "act", pid |-> 7, bad |-> b] : b \in {"sf", "esf", "overlap", "order"} }
Glob == { [c |-> "glob", pid |-> 7, v |-> v, bad |-> ""] : v \in {"S1", "S2"} }
        \cup { [c |-> "glob", pid |-> 7, v |-> "S3", bad |-> b] :
                 b \in {"tid0", "ts", "ts1", "noargs", "nocount", "noavg", "countty", "avgty", "extra", "prefix", "cat", "noname", "tdur"} }
        \cup { [c |-> "glob", pid |-> 8, v |-> "S1", bad |-> ""], [c |-> "glob", pid |-> 1, v |-> "S1", bad |-> ""] }
Proc == { [c |-> "proc", pid |-> p, v |-> v, bad |-> ""] : p \in {1, 7}, v \in {"P1", "P2"} }
        \cup { [c |-> "proc", pid |-> 1, v |-> "P1", bad |-> "oldtid"], [c |-> "proc", pid |-> 8, v |-> "P1", bad |-> ""] }
        \cup { [c |-> "proc", pid |-> 7, v |-> "P3", bad |-> b] :
                 b \in {"tid", "notid", "cat", "nocat", "ts", "nots", "tts", "extra"} }
Thr  == { [c |-> "thr", pid |-> 7, v |-> v, bad |-> ""] : v \in {"T1", "T2"} }
        \cup { [c |-> "thr", pid |-> 8, v |-> "T1", bad |-> ""], [c |-> "thr", pid |-> 0, v |-> "T1", bad |-> "nopid"] }
        \cup { [c |-> "thr", pid |-> 7, v |-> "T3", bad |-> b] : b \in {"tid", "cat", "nocat", "ts", "nots", "tts", "extra"} }
Other == { [c |-> "meta", pid |-> 7, bad |-> b] : b \in {"labels", "psort", "tsort"} }
        \cup { [c |-> "other", pid |-> 7, bad |-> b] : b \in {"B", "E"} }
Events == Act \cup Early \cup ActSf \cup Glob \cup Proc \cup Thr \cup Other

(* "oldtid" is the process/thread numbering of old clang: fine, but only with pid 1 *)
Harmless(e) == e.bad = "" \/ (e.bad = "oldtid" /\ e.pid = 1)

None == 0 - 1

VARIABLES meta, bot, ctf,   \* file-level facts, chosen initially
          evs,              \* events read so far
          pid,              \* process id seen so far, or None
          pname, tname,     \* names seen so far, or ""
          stats,            \* global statistics: set of <<name, index of event>>
          acts,             \* indices of the events that are activities
          verdict           \* "" while reading; then "ok" or the fault

vars == <<meta, bot, ctf, evs, pid, pname, tname, stats, acts, verdict>>

Init == /\ meta \in Metas /\ bot \in Bots /\ ctf \in Ctfs
        /\ evs = <<>> /\ pid = None /\ pname = "" /\ tname = "" /\ stats = {} /\ acts = {} /\ verdict = ""

PidFault(e) == e.pid # 0 /\ pid # None /\ pid # e.pid
NewPid(e) == IF e.pid # 0 /\ pid = None THEN e.pid ELSE pid

(* Fault of one event by itself *)
OwnFault(e) ==
  CASE e.c \in {"act", "early"} ->
         (IF Harmless(e) \/ e.bad \in {"overlap", "order"} THEN ""
          ELSE IF e.bad = "args" THEN "ActivityStatParseError(BadArguments" ELSE "ActivityStatParseError(UnexpectedInput")
    [] e.c = "glob" ->
         (IF e.bad = "" THEN ""
          ELSE IF e.bad = "prefix" THEN "GlobalStatParseError(NoTotalPrefix"
          ELSE IF e.bad \in {"nocount", "noavg", "countty", "avgty", "extra"} THEN "GlobalStatParseError(BadArguments"
          ELSE "GlobalStatParseError(UnexpectedInput")
    [] e.c \in {"proc", "thr"} -> (IF Harmless(e) THEN "" ELSE "NameParseError")
    [] e.c = "meta" -> "UnexpectedMetadataEvent"
    [] e.c = "other" -> "UnexpectedEvent"

(* Fault with respect to what was read before *)
ContextFault(e) ==
  CASE e.c = "glob" -> (IF \E x \in stats : x[1] = e.v THEN "DuplicateGlobalStat" ELSE "")
    [] e.c = "proc" -> (IF pname # "" THEN "DuplicateProcessName" ELSE "")
    [] e.c = "thr" -> (IF tname # "" THEN "DuplicateThreadName" ELSE "")
    (* activities are laid out one after the other, except those marked *)
    [] e.c = "early" -> (IF acts # {} THEN "ActivityTreeError(UnexpectedActivityOrder" ELSE "")
    [] e.c = "act" /\ e.bad = "order" -> (IF acts # {} THEN "ActivityTreeError(UnexpectedActivityOrder" ELSE "")
    (* overlaps the end of the latest activity, whichever event that was *)
    [] e.c = "act" /\ e.bad = "overlap" -> (IF acts # {} THEN "ActivityTreeError(PartialActivityOverlap" ELSE "")
    [] OTHER -> ""

Fault(e) == IF e.c \notin {"meta", "other"} /\ PidFault(e) THEN "InconsistentPid"
            ELSE IF OwnFault(e) # "" THEN OwnFault(e)
            ELSE ContextFault(e)

FileFault == IF ctf # "" THEN "CtfParseError"
             ELSE IF meta \notin {"", "ms", "extra"} THEN "UnexpectedTraceMetadata"
             ELSE IF bot \notin {"", "num", "int", "zero"} THEN "InvalidBeginningOfTime"
             ELSE ""

Read(e) ==
  /\ verdict = "" /\ Len(evs) < MaxN
  /\ (GoodFirst /\ Len(evs) < MaxN - 1) => Fault(e) = ""
  /\ evs' = Append(evs, e)
  /\ LET f == Fault(e) IN
     IF f # "" THEN verdict' = f /\ UNCHANGED <<pid, pname, tname, stats, acts>>
     ELSE /\ pid' = NewPid(e)
          /\ pname' = IF e.c = "proc" THEN e.v ELSE pname
          /\ tname' = IF e.c = "thr" THEN e.v ELSE tname
          /\ stats' = IF e.c = "glob" THEN stats \cup {<<e.v, Len(evs) + 1>>} ELSE stats
          /\ acts' = IF e.c \in {"act", "early"} THEN acts \cup {Len(evs) + 1} ELSE acts
          /\ UNCHANGED verdict
  /\ UNCHANGED <<meta, bot, ctf>>

Finish ==
  /\ verdict = ""
  /\ verdict' = IF pname = "" THEN "NoProcessName" ELSE "ok"
  /\ UNCHANGED <<meta, bot, ctf, evs, pid, pname, tname, stats, acts>>

(* what follows a fault is never looked at: it may be anything *)
Next == (\E e \in Events : Read(e)) \/ Finish
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Properties, stated on the whole list of events rather than as a fold *)
Seen(cls) == { i \in 1..Len(evs) : evs[i].c = cls }
OkMeansWellFormed == verdict = "ok" =>
  /\ Cardinality(Seen("proc")) = 1 /\ Cardinality(Seen("thr")) <= 1
  /\ \A i, j \in 1..Len(evs) : evs[i].pid = evs[j].pid
  /\ \A i, j \in Seen("glob") : i # j => evs[i].v # evs[j].v
  /\ Seen("meta") = {} /\ Seen("other") = {}
  /\ \A i \in 1..Len(evs) : OwnFault(evs[i]) = ""
  /\ acts = Seen("act") \cup Seen("early")
  /\ \A i \in Seen("proc") : pname = evs[i].v
  /\ tname = (IF Seen("thr") = {} THEN "" ELSE evs[CHOOSE i \in Seen("thr") : TRUE].v)
FaultIsLast == verdict \notin {"", "ok", "NoProcessName"} =>
  \A i \in 1..(Len(evs) - 1) : OwnFault(evs[i]) = ""
PidIsShared == pid # None => \E i \in 1..Len(evs) : evs[i].pid = pid

Case == [ meta |-> meta, bot |-> bot, ctf |-> ctf, evs |-> evs,
          verdict |-> (IF FileFault # "" THEN FileFault ELSE verdict),
          pid |-> (IF pid > 1 THEN pid ELSE None), pname |-> pname, tname |-> tname,
          stats |-> stats, acts |-> acts ]
Emit == (verdict' # "" /\ Len(evs') >= EmitMin) => PrintT(ToJson(Case'))
=============================================================================
