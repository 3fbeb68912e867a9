----------------------------- MODULE BuildTrace -----------------------------
(***************************************************************************)
(* What can be seen from outside of a measured build whose jobs are left to   *)
(* themselves: which sequences of starts and ends of jobs, notifications,      *)
(* cancellation and outcome are possible. Recorded runs of the real code are   *)
(* behaviours of this specification, or else they are wrong.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES t,         \* the recorded run that is explained
          i,         \* how many of its events have been
          phase,     \* of each job: todo, running, done, failed
          count,     \* number of jobs in each phase
          told,      \* progress notifications
          cancelled, outcome
vars == <<t, i, phase, count, told, cancelled, outcome>>

T == Traces[t]
Jobs == 1..T.jobs
Init == /\ t \in 1..Len(Traces) /\ i = 0 /\ phase = [j \in 1..Traces[t].jobs |-> "todo"]
        /\ count = [todo |-> Traces[t].jobs, running |-> 0, done |-> 0, failed |-> 0]
        /\ told = 0 /\ cancelled = FALSE /\ outcome = ""
Move(j, p) == /\ phase' = [phase EXCEPT ![j] = p]
              /\ count' = [count EXCEPT ![phase[j]] = @ - 1, ![p] = @ + 1]

(* a job is started at most once, as nothing interrupts it, and not with too many others *)
Start(j) == /\ outcome = "" /\ phase[j] = "todo" /\ T.kinds[j] = "ok" /\ count.running < T.workers /\ ~T.io
            /\ Move(j, "running") /\ UNCHANGED <<told, cancelled, outcome>>
Exit(j, ok) == phase[j] = "running" /\ Move(j, IF ok THEN "done" ELSE "failed") /\ UNCHANGED <<told, cancelled, outcome>>
Progress == outcome = "" /\ told < count.done /\ told' = told + 1 /\ UNCHANGED <<phase, count, cancelled, outcome>>
(* too late does not matter *)
Cancel == cancelled' = TRUE /\ UNCHANGED <<phase, count, told, outcome>>
(* what may have gone wrong *)
Causes == (IF cancelled THEN {"killed"} ELSE {}) \cup (IF count.failed > 0 THEN {"failed"} ELSE {})
          \cup {T.kinds[j] : j \in {k \in Jobs : T.kinds[k] # "ok"}}
Outcome(x) == /\ outcome = "" /\ outcome' = x
              /\ IF x = "success" THEN count.done = T.jobs /\ told = T.jobs ELSE x \in Causes
              /\ UNCHANGED <<phase, count, told, cancelled>>
(* a profile that cannot be written: either that is seen at once, or in the end *)
IoOutcome(x) == outcome = "" /\ T.io /\ x = "io" /\ outcome' = "io" /\ UNCHANGED <<phase, count, told, cancelled>>
LateIoStart(j) == /\ outcome = "" /\ T.io /\ phase[j] = "todo" /\ count.running < T.workers
                  /\ Move(j, "running") /\ UNCHANGED <<told, cancelled, outcome>>

Next == /\ i < Len(T.events) /\ i' = i + 1 /\ t' = t
        /\ LET e == T.events[i + 1] IN
           \/ e.ev = "start" /\ (Start(e.job) \/ LateIoStart(e.job))
           \/ e.ev = "exit" /\ Exit(e.job, e.ok)
           \/ e.ev = "progress" /\ Progress
           \/ e.ev = "cancel" /\ Cancel
           \/ e.ev = "outcome" /\ (Outcome(e.what) \/ IoOutcome(e.what))
Spec == Init /\ [][Next]_vars

NeverTooMany == count.running <= T.workers
OnlyOnce == told <= count.done
Emit == PrintT(ToJson([trace |-> t', upto |-> i']))
=============================================================================
