---------------------------- MODULE BuildMeasure ----------------------------
(***************************************************************************)
(* Measuring a build: workers run the compilation jobs, while a coordinator  *)
(* collects results, watches the free memory and can be told to give up.     *)
(*                                                                          *)
(* The environment (jobs, the rest of the machine, the user) acts step by    *)
(* step: once the measurement has nothing left to do on its own, time passes  *)
(* and one more thing happens. Amounts of memory are in MB.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC, Json

CONSTANTS NJobs, NWorkers, Levels, Plenty, Failures, MaxEnv, Random, CancelToo

VARIABLES starts,    \* number of times a job was started
          todo,      \* jobs nobody is running, and that have not been done
          wk,        \* what each worker does
          rows,      \* jobs in the profile
          told,      \* progress notifications
          free, seen,\* free memory, now and when it was last looked at
          per,       \* memory that each worker may need before the next look
          now,       \* number of environment steps
          stopped,   \* stop requests the coordinator has sent
          cause,     \* why the measurement must end, if it must
          outcome,   \* what was reported
          hist       \* environment steps, and what should be seen after each
vars == <<starts, todo, wk, rows, told, free, seen, per, now, stopped, cause, outcome, hist>>

Jobs == 1..NJobs
W == 1..NWorkers
Margin == 100
Nobody == 0
Init == /\ starts = 0 /\ todo = Jobs /\ rows = {} /\ told = 0 /\ free = Plenty /\ seen = Plenty /\ per = Margin
        /\ wk = [w \in W |-> [job |-> Nobody, since |-> 0, age |-> 0]] /\ now = 0 /\ stopped = {} /\ cause = "" /\ outcome = "" /\ hist = <<>>

Busy(w) == wk[w].job # Nobody
Active == W \ stopped
Running == {w \in W : Busy(w)}
(* time spent on the current job, or on the last one *)
Age(w) == IF Busy(w) THEN now - wk[w].since ELSE wk[w].age
(* one thread more than there are workers is assumed for the rest of the system *)
Need(n, p) == (n + 1) * p

(*---------------------------- the measurement ----------------------------*)
Idle == {w \in Active : ~Busy(w)}
Start == /\ cause = "" /\ todo # {} /\ Idle # {}
         /\ LET w == Min(Idle) IN wk' = [wk EXCEPT ![w] = [job |-> Min(todo), since |-> now, age |-> 0]]
         /\ starts' = starts + 1 /\ todo' = todo \ {Min(todo)}
         /\ UNCHANGED <<rows, told, free, seen, per, now, stopped, cause, outcome, hist>>

(* the coordinator looks at the free memory: it expects that what happened since the last look can happen again *)
Learnt == LET used == seen - free IN IF used > Need(Cardinality(Active), per) THEN used \div (Cardinality(Active) + 1) ELSE per
Youngest(A) == {w \in A : \A v \in A : Age(w) <= Age(v)}
RECURSIVE ToStop(_, _)
ToStop(A, p) == IF A = {} \/ free >= Need(Cardinality(A), p) THEN {}
                ELSE LET w == Min(Youngest(A)) IN {w} \cup ToStop(A \ {w}, p)
(* among workers of the same age, it must not matter which one is stopped *)
RECURSIVE Clear(_, _)
Clear(A, p) == IF A = {} \/ free >= Need(Cardinality(A), p) THEN TRUE
               ELSE /\ \A v, w \in Youngest(A) : Busy(v) = Busy(w)
                    /\ Clear(A \ {Min(Youngest(A))}, p)
Look == /\ cause = "" /\ (free # seen \/ (rows # Jobs /\ ToStop(Active, per) # {}))
        /\ seen' = free /\ per' = Learnt
        /\ stopped' = stopped \cup ToStop(Active, Learnt)
        /\ cause' = IF stopped' = W THEN "memory" ELSE ""
        /\ UNCHANGED <<starts, todo, wk, rows, told, free, now, outcome, hist>>
(* a stopped worker gives its job back *)
GiveBack == \E w \in stopped : /\ Busy(w) /\ todo' = todo \cup {wk[w].job}
                               /\ wk' = [wk EXCEPT ![w] = [@ EXCEPT !.job = Nobody, !.age = Age(w)]]
                               /\ UNCHANGED <<starts, rows, told, free, seen, per, now, stopped, cause, outcome, hist>>
Progress == /\ told < Cardinality(rows) /\ told' = told + 1
            /\ UNCHANGED <<starts, todo, wk, rows, free, seen, per, now, stopped, cause, outcome, hist>>
(* ending: all jobs are stopped first *)
StopAll == /\ cause # "" /\ stopped # W /\ stopped' = W
           /\ UNCHANGED <<starts, todo, wk, rows, told, free, seen, per, now, cause, outcome, hist>>
Report == /\ outcome = "" /\ Running = {}
          /\ \/ cause # "" /\ outcome' = cause
             \/ cause = "" /\ rows = Jobs /\ told = NJobs /\ outcome' = "success"
          /\ UNCHANGED <<starts, todo, wk, rows, told, free, seen, per, now, stopped, cause, hist>>
Measurement == Start \/ Look \/ GiveBack \/ Progress \/ StopAll \/ Report

(*---------------------------- the environment ----------------------------*)
Stable == ~ENABLED Measurement
Pick(S) == IF S = {} THEN {} ELSE IF Random THEN {RandomElement(S)} ELSE S
Live == outcome = "" /\ cause = "" /\ Len(hist) < MaxEnv
Step(op, arg) == /\ now' = now + 1
                 /\ hist' = Append(hist, [op |-> op, arg |-> arg, before |-> [running |-> SetToSortSeq({<<wk[w].since, wk[w].job>> : w \in Running}, LAMBDA a, b : a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])),
                                                                            rows |-> Cardinality(rows), told |-> told]])
(* a job ends well: the worker can do something else *)
(* (by then, another step has passed) *)
Finish == /\ Live /\ Running # {}
          /\ \E w \in Pick(Running) : /\ rows' = rows \cup {wk[w].job}
                                      /\ wk' = [wk EXCEPT ![w] = [@ EXCEPT !.job = Nobody, !.age = Age(w) + 1]]
                                      /\ Step("finish", wk[w].since)
          /\ UNCHANGED <<starts, todo, told, free, seen, per, stopped, cause, outcome>>
(* or does not *)
Fail == /\ Live /\ Running # {} /\ Failures # {}
        /\ \E w \in Pick(Running), f \in Pick(Failures) :
             /\ wk' = [wk EXCEPT ![w] = [@ EXCEPT !.job = Nobody, !.age = Age(w) + 1]] /\ cause' = f /\ Step(f, wk[w].since)
             /\ todo' = todo \cup {wk[w].job}
        /\ UNCHANGED <<starts, rows, told, free, seen, per, stopped, outcome>>
Memory == /\ Live /\ Running # {}
          /\ \E m \in Pick(Levels) : free' = m /\ m # free /\ Step("memory", m)
          /\ UNCHANGED <<starts, todo, wk, rows, told, seen, per, stopped, cause, outcome>>
Cancel == /\ Live /\ CancelToo /\ cause' = "killed" /\ Step("cancel", 0)
          /\ UNCHANGED <<starts, todo, wk, rows, told, free, seen, per, stopped, outcome>>
Environment == Stable /\ (Finish \/ Fail \/ Memory \/ Cancel)
Next == Measurement \/ Environment
Spec == Init /\ [][Next]_vars
Fair == Spec /\ WF_vars(Measurement) /\ WF_vars(Stable /\ Finish)
(* what depends on the order in which things happen at the same time is left out *)
Decided == cause = "" => /\ Clear(Active, Learnt)
                         /\ \A n \in 0..NWorkers : free - Need(n, Learnt) \notin -5..5
                         /\ (seen - free) - Need(Cardinality(Active), per) \notin -5..5

-----------------------------------------------------------------------------
JobsOf(ws) == {wk[w].job : w \in ws}
NoJobLost == /\ todo \cup JobsOf(Running) \cup rows = Jobs
             /\ Cardinality(todo) + Cardinality(Running) + Cardinality(rows) = NJobs
SuccessIsComplete == outcome = "success" => rows = Jobs /\ told = NJobs /\ Running = {} /\ todo = {}
EndsWithNothingRunning == outcome # "" => Running = {}
ReportedOnce == [][outcome # "" => outcome' = outcome]_vars
ToldOncePerRow == told <= Cardinality(rows)
(* no job is stopped when there is enough memory for all *)
OnlyWhenShort == [][(cause' = "" /\ stopped' # stopped) => free < Need(Cardinality(Active), per')]_vars
(* when some are, there is enough for the others *)
EnoughStopped == (cause = "" /\ free = seen /\ rows # Jobs) => free >= Need(Cardinality(Active), per)
YoungestFirst == [][(cause' = "" /\ stopped' # stopped) => \A v \in stopped' \ stopped, w \in W \ stopped' : Age(v) <= Age(w)]_vars
NotMoreThanNeeded == [][(cause' = "" /\ stopped' # stopped) => free < Need(Cardinality(W \ stopped') + 1, per')]_vars
MemoryFailureIsReal == cause = "memory" => free < Need(1, per)
(* what is stopped for lack of memory is run again *)
StoppedAgain == \A j \in Jobs : (j \in todo /\ cause = "" /\ Active # {}) ~> (j \notin todo \/ cause # "")
Ends == <>(outcome # "")
TypeOK == /\ told \in 0..NJobs /\ outcome \in {"", "success", "memory", "killed"} \cup Failures

Emit == (outcome' # outcome) => PrintT(ToJson([plenty |-> Plenty, jobs |-> NJobs, workers |-> NWorkers, hist |-> hist', outcome |-> outcome', rows |-> Cardinality(rows'), told |-> told', starts |-> starts']))
=============================================================================
