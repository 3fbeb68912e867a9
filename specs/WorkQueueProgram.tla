-------------------------- MODULE WorkQueueProgram --------------------------
(***************************************************************************)
(* Programs for the coordinator, and what must have happened once the          *)
(* workers have nothing left to do on their own: this does not depend on the    *)
(* order in which they do it, so that it may be required under any schedule.    *)
(***************************************************************************)
EXTENDS WorkQueue, Sequences, TLC, Json
CONSTANTS Initial, MaxOps, Random
VARIABLE hist
vars == <<handed, has, state, done, back, started, closed, hist>>
Init == WQInit(1..Initial) /\ hist = <<>>
(* one of the internal steps that can be done is enough: they commute *)
Inner == LET able == {w \in Workers : Idle(w)} IN
         /\ able # {} /\ started
         /\ LET w == CHOOSE w \in able : TRUE IN
            IF handed # {} THEN Fetch(w, CHOOSE j \in handed : \A k \in handed : j <= k) ELSE ToldOff(w)
         /\ UNCHANGED hist
Count(s) == Cardinality({w \in Workers : state[w] = s})
Seen == [held |-> Cardinality(Held), done |-> Cardinality(done), off |-> Count("off"), dead |-> Count("dead")]
(* whether the coordinator waits before it does something *)
Log(op, j, settled) == hist' = Append(hist, [op |-> op, job |-> j, settled |-> settled, seen |-> Seen])
Pick(S) == IF Random /\ S # {} THEN {RandomElement(S)} ELSE S
AnyHolder == CHOOSE w \in Workers : has[w] # None
Op(s) == \/ hist = <<>> /\ Start /\ Log("start", 0, s)
         \/ back = {} /\ New # {} /\ LET j == CHOOSE j \in New : \A k \in New : j <= k IN Push(j) /\ Log("push", j, s)
         \/ \E j \in back : Push(j) /\ Log("again", j, s)
         \/ Held # {} /\ back = {} /\ JobDone(AnyHolder) /\ Log("release", 0, s)
         \/ Held # {} /\ back = {} /\ Count("on") > 1 /\ ~closed /\ GiveUp(AnyHolder) /\ Log("die", 0, s)
         \/ back = {} /\ Close /\ Log("close", 0, s)
Outer == Len(hist) < MaxOps /\ \E s \in {TRUE, FALSE} : Op(s)
Stable == ~ENABLED Inner
Next == Inner \/ (Stable /\ Outer)
Spec == Init /\ [][Next]_vars
(* nobody idles while there is something to do *)
Busy == Stable /\ started /\ handed # {} => \A w \in Workers : ~Idle(w)
Over == closed' /\ (\A w \in Workers : state'[w] # "on") /\ handed' = {} /\ back' = {}
Full == Len(hist') = MaxOps /\ hist' # hist
Emit == (Over \/ Full) => PrintT(ToJson([workers |-> Cardinality(Workers), initial |-> Initial, ops |-> hist',
        over |-> Over, done |-> Cardinality(done')]))
=============================================================================
