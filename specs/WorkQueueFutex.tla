--------------------------- MODULE WorkQueueFutex ---------------------------
(***************************************************************************)
(* The way crofiler does it: a shared queue, and a counter on which workers    *)
(* sleep, that changes each time there is something new to see. Every access    *)
(* to what is shared is a step; sleeping workers may wake up for no reason, and  *)
(* attempts to steal may have to be tried again.                               *)
(* All of its behaviours must be behaviours of WorkQueue.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Workers, Jobs, Initial, MaxDeaths
VARIABLES queue,    \* handed out jobs
          futex,    \* 0: closed, 1: not started yet
          asleep,   \* workers that wait for the counter to change
          pc, last, has, state,          \* of each worker
          cpc, cjob,                     \* what the coordinator is doing
          done, back, deaths
vars == <<queue, futex, asleep, pc, last, has, state, cpc, cjob, done, back, deaths>>
None == 0
Init == /\ queue = [i \in 1..Initial |-> i] /\ futex = 1 /\ asleep = {}
        /\ pc = [w \in Workers |-> "load"] /\ last = [w \in Workers |-> 1] /\ has = [w \in Workers |-> None] /\ state = [w \in Workers |-> "on"]
        /\ cpc = "new" /\ cjob = None /\ done = {} /\ back = {} /\ deaths = 0

Goto(w, l) == pc' = [pc EXCEPT ![w] = l]
(*------------------------------ workers ------------------------------*)
Steal(w) == /\ pc[w] = "steal"
            /\ \/ /\ queue # <<>> /\ has' = [has EXCEPT ![w] = Head(queue)] /\ queue' = Tail(queue) /\ Goto(w, "work") /\ UNCHANGED <<last, state>>
               \/ /\ queue = <<>> /\ Goto(w, "check") /\ UNCHANGED <<queue, has, last, state>>
            /\ UNCHANGED <<futex, asleep, cpc, cjob, done, back, deaths>>
Check(w) == /\ pc[w] = "check"
            /\ IF last[w] = 0 THEN Goto(w, "end") /\ state' = [state EXCEPT ![w] = "off"] ELSE Goto(w, "load") /\ UNCHANGED state
            /\ UNCHANGED <<queue, futex, asleep, last, has, cpc, cjob, done, back, deaths>>
Load(w) == /\ pc[w] = "load"
           /\ IF futex # last[w] THEN last' = [last EXCEPT ![w] = futex] /\ Goto(w, "steal") ELSE Goto(w, "sleep") /\ UNCHANGED last
           /\ UNCHANGED <<queue, futex, asleep, has, state, cpc, cjob, done, back, deaths>>
Sleep(w) == /\ pc[w] = "sleep" /\ Goto(w, IF futex = last[w] THEN "asleep" ELSE "load")
            /\ asleep' = IF futex = last[w] THEN asleep \cup {w} ELSE asleep
            /\ UNCHANGED <<queue, futex, last, has, state, cpc, cjob, done, back, deaths>>
WakeUp(w) == /\ pc[w] = "asleep" /\ w \notin asleep /\ Goto(w, "load")
             /\ UNCHANGED <<queue, futex, asleep, last, has, state, cpc, cjob, done, back, deaths>>
Spurious(w) == w \in asleep /\ asleep' = asleep \ {w} /\ UNCHANGED <<queue, futex, pc, last, has, state, cpc, cjob, done, back, deaths>>
Work(w) == /\ pc[w] = "work" /\ has' = [has EXCEPT ![w] = None]
           /\ \/ done' = done \cup {has[w]} /\ Goto(w, "steal") /\ UNCHANGED <<back, deaths, state>>
              \/ /\ deaths < MaxDeaths /\ deaths' = deaths + 1 /\ back' = back \cup {has[w]} /\ Goto(w, "end")
                 /\ state' = [state EXCEPT ![w] = "dead"] /\ UNCHANGED done
           /\ UNCHANGED <<queue, futex, asleep, last, cpc, cjob>>
(*---------------------------- coordinator ----------------------------*)
New == Jobs \ (done \cup {queue[i] : i \in DOMAIN queue} \cup {has[w] : w \in Workers} \cup {cjob})
Wake(all) == IF all THEN asleep' = {} ELSE IF asleep = {} THEN UNCHANGED asleep ELSE \E w \in asleep : asleep' = asleep \ {w}
C1 == \/ cpc = "new" /\ cpc' = "starting" /\ futex' = 2 /\ UNCHANGED <<queue, asleep, cjob, back>>
      \/ cpc = "starting" /\ cpc' = "idle" /\ Wake(TRUE) /\ UNCHANGED <<queue, futex, cjob, back>>
      \/ /\ cpc = "idle" /\ cjob = None
         /\ \E j \in New \cup back : queue' = Append(queue, j) /\ back' = back \ {j}
         /\ cpc' = "pushing" /\ UNCHANGED <<futex, asleep, cjob>>
      \/ cpc = "pushing" /\ cpc' = "waking" /\ futex' = futex + 1 /\ UNCHANGED <<queue, asleep, cjob, back>>
      \/ cpc = "waking" /\ cpc' = "idle" /\ Wake(FALSE) /\ UNCHANGED <<queue, futex, cjob, back>>
      \/ cpc = "idle" /\ back = {} /\ cpc' = "closing" /\ futex' = 0 /\ UNCHANGED <<queue, asleep, cjob, back>>
      \/ cpc = "closing" /\ cpc' = "closed" /\ Wake(TRUE) /\ UNCHANGED <<queue, futex, cjob, back>>
Coordinator == C1 /\ UNCHANGED <<pc, last, has, state, done, deaths>>
WorkerStep(w) == Steal(w) \/ Check(w) \/ Load(w) \/ Sleep(w) \/ WakeUp(w)
Next == Coordinator \/ \E w \in Workers : WorkerStep(w) \/ Work(w) \/ Spurious(w)
Finishing == cpc \in {"starting", "pushing", "waking", "closing"} /\ Coordinator
Spec == Init /\ [][Next]_vars
Fair == Spec /\ WF_vars(Finishing) /\ \A w \in Workers : WF_vars(WorkerStep(w)) /\ WF_vars(Work(w))

Abs == INSTANCE WorkQueue WITH handed <- {queue[i] : i \in DOMAIN queue}, started <- futex # 1, closed <- futex = 0
AbsSpec == Abs!WQInit(1..Initial) /\ [][Abs!WQNext]_(Abs!wqvars)
OnePlace == Abs!OnePlace
(* nobody sleeps when there is something to see *)
Quiet == ~ENABLED Finishing /\ \A w \in Workers : ~ENABLED WorkerStep(w)
NobodyStranded == Quiet => /\ queue # <<>> /\ futex # 1 => asleep = {}
                           /\ futex = 0 => asleep = {}
Ending == futex = 0 ~> \A w \in Workers : state[w] # "on"
Fetched == (queue # <<>> /\ futex # 1) ~> (queue = <<>> \/ \A w \in Workers : state[w] # "on")
=============================================================================
