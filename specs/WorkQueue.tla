----------------------------- MODULE WorkQueue ------------------------------
(***************************************************************************)
(* How jobs go from the coordinator of a measured build to its workers, as    *)
(* seen from outside: jobs are handed out until the queue is closed, and any   *)
(* idle worker may fetch a job, or be told that there is nothing left to do.   *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
CONSTANTS Workers, Jobs
VARIABLES handed,   \* jobs that were handed out and that nobody has fetched
          has,      \* the job each worker has fetched and not finished
          state,    \* of each worker: "on", "off" (told that all is done), "dead" (has given up)
          done,     \* jobs that were done
          back,     \* jobs that were given back and are to be handed out again
          started, closed
wqvars == <<handed, has, state, done, back, started, closed>>
None == 0
WQInit(initial) == /\ handed = initial /\ has = [w \in Workers |-> None] /\ state = [w \in Workers |-> "on"]
                   /\ done = {} /\ back = {} /\ started = FALSE /\ closed = FALSE

Start == ~started /\ started' = TRUE /\ UNCHANGED <<handed, has, state, done, back, closed>>
Push(j) == /\ started /\ ~closed /\ handed' = handed \cup {j} /\ back' = back \ {j}
           /\ UNCHANGED <<has, state, done, started, closed>>
Close == started /\ ~closed /\ closed' = TRUE /\ UNCHANGED <<handed, has, state, done, back, started>>
Idle(w) == state[w] = "on" /\ has[w] = None
Fetch(w, j) == /\ started /\ Idle(w) /\ j \in handed
               /\ has' = [has EXCEPT ![w] = j] /\ handed' = handed \ {j} /\ UNCHANGED <<state, done, back, started, closed>>
ToldOff(w) == /\ started /\ Idle(w) /\ closed /\ handed = {}
              /\ state' = [state EXCEPT ![w] = "off"] /\ UNCHANGED <<handed, has, done, back, started, closed>>
JobDone(w) == /\ has[w] # None /\ done' = done \cup {has[w]} /\ has' = [has EXCEPT ![w] = None]
              /\ UNCHANGED <<handed, state, back, started, closed>>
GiveUp(w) == /\ has[w] # None /\ back' = back \cup {has[w]} /\ has' = [has EXCEPT ![w] = None]
             /\ state' = [state EXCEPT ![w] = "dead"] /\ UNCHANGED <<handed, done, started, closed>>
New == Jobs \ (handed \cup done \cup {has[w] : w \in Workers})
WQNext == \/ Start \/ Close \/ (\E j \in New \cup back : Push(j))
          \/ \E w \in Workers : (\E j \in handed : Fetch(w, j)) \/ ToldOff(w) \/ JobDone(w) \/ GiveUp(w)

Held == {has[w] : w \in Workers} \ {None}
(* each job is somewhere, and nowhere twice *)
OnePlace == /\ \A v, w \in Workers : (has[v] = has[w] /\ has[v] # None) => v = w
            /\ handed \cap done = {} /\ handed \cap Held = {} /\ done \cap Held = {} /\ back \cap (done \cup Held \cup handed) = {}
OffInTheEnd == \A w \in Workers : state[w] = "off" => closed
=============================================================================
