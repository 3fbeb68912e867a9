------------------------------- MODULE JobTree -------------------------------
(***************************************************************************)
(* What a measured build is told to find out about each job: the most memory  *)
(* that all its processes had together at any moment, and how long it took.   *)
(*                                                                          *)
(* A job starts as one process. Processes allocate and release memory, start  *)
(* other processes, and end once those below them have ended. The job is over *)
(* when its first process ends; the next one is started then. Amounts are in  *)
(* MB; each step lasts long enough for the system to be looked at.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC, Json

CONSTANTS Threads,   \* whether processes start threads, which hold no memory of their own
          NJobs, NWorkers, NProcs, Sizes, Cap, MaxSteps, Random

VARIABLES tree,    \* tree[j]: the processes that job j has had: parent (0: none), memory blocks, whether it runs
          begun,   \* number of jobs that were started
          done,    \* jobs that are over
          seen,    \* seen[j]: number of processes and total memory of job j at every moment of its life
          hist, phase
vars == <<tree, begun, done, seen, hist, phase>>

Proc(parent) == [parent |-> parent, blocks |-> <<>>, threads |-> 0, runs |-> TRUE]
Sum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
Procs(j) == {p \in 1..Len(tree[j]) : tree[j][p].runs}
Running == {j \in 1..begun : j \notin done}
Of(t) == <<Cardinality({p \in 1..Len(t) : t[p].runs}), FoldLeft(LAMBDA a, p : a + (IF p.runs THEN Sum(p.blocks) ELSE 0), 0, t)>>
Total == FoldSet(LAMBDA j, a : a + Of(tree[j])[2], 0, Running)
Below(j, p) == {q \in Procs(j) : tree[j][q].parent = p}
Most(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(a, b) == IF a < b THEN a ELSE b

Init == /\ begun = MinOf(NJobs, NWorkers) /\ done = {} /\ hist = <<>> /\ phase = "go"
        /\ tree = [j \in 1..NJobs |-> IF j <= begun THEN <<Proc(0)>> ELSE <<>>]
        /\ seen = [j \in 1..NJobs |-> IF j <= begun THEN {<<1, 0>>} ELSE {}]
Pick(S) == IF S = {} THEN {} ELSE IF Random THEN {RandomElement(S)} ELSE S
Act(op, j, p, n) == hist' = Append(hist, [op |-> op, job |-> j, proc |-> p, arg |-> n])
Becomes(j, t) == tree' = [tree EXCEPT ![j] = t] /\ seen' = [seen EXCEPT ![j] = @ \cup {Of(t)}]
Go == phase = "go" /\ Len(hist) < MaxSteps

Alloc(j, p) == /\ Go /\ \E n \in Pick(Sizes) : /\ Total + n <= Cap
                                              /\ Becomes(j, [tree[j] EXCEPT ![p].blocks = Append(@, n)]) /\ Act("alloc", j, p, n)
               /\ UNCHANGED <<begun, done, phase>>
Free(j, p) == /\ Go /\ tree[j][p].blocks # <<>>
              /\ Becomes(j, [tree[j] EXCEPT ![p].blocks = Front(@)]) /\ Act("free", j, p, 0)
              /\ UNCHANGED <<begun, done, phase>>
(* while it is being started, a process shares the memory of the one that starts it: only those that have none start others *)
Spawn(j, p) == /\ Go /\ tree[j][p].blocks = <<>> /\ Len(tree[j]) < NProcs
               /\ Becomes(j, Append(tree[j], Proc(p))) /\ Act("spawn", j, p, Len(tree[j]) + 1)
               /\ UNCHANGED <<begun, done, phase>>
(* all threads of a process are in the same memory *)
Thread(j, p) == /\ Go /\ Threads /\ tree[j][p].threads < 2
                /\ Becomes(j, [tree[j] EXCEPT ![p].threads = @ + 1]) /\ Act("thread", j, p, 0)
                /\ UNCHANGED <<begun, done, phase>>
End(j, p) == /\ Go /\ tree[j][p].parent # 0 /\ Below(j, p) = {}
             /\ Becomes(j, [tree[j] EXCEPT ![p].runs = FALSE]) /\ Act("end", j, p, 0)
             /\ UNCHANGED <<begun, done, phase>>
(* in the end everything ends *)
Finish(j) == /\ Procs(j) = {1} /\ done' = done \cup {j} /\ begun' = MinOf(NJobs, begun + 1)
             /\ tree' = [k \in 1..NJobs |-> IF k = j THEN [tree[j] EXCEPT ![1].runs = FALSE] ELSE IF k > begun /\ k <= begun' THEN <<Proc(0)>> ELSE tree[k]]
             /\ seen' = [k \in 1..NJobs |-> IF k > begun /\ k <= begun' THEN {<<1, 0>>} ELSE seen[k]]
             /\ Act("finish", j, 1, 0)
             /\ UNCHANGED phase
Cease == phase = "go" /\ Len(hist) >= MaxSteps /\ phase' = "end" /\ UNCHANGED <<tree, begun, done, seen, hist>>
(* when there is no time left, the processes end in order *)
Last1 == /\ phase = "end" /\ Running # {}
         /\ LET j == Min(Running)
                p == CHOOSE q \in Procs(j) : Below(j, q) = {} /\ q # 1 IN
            IF Procs(j) = {1} THEN Finish(j)
            ELSE /\ Becomes(j, [tree[j] EXCEPT ![p].runs = FALSE]) /\ Act("end", j, p, 0) /\ UNCHANGED <<begun, done, phase>>
Move(j, p) == Alloc(j, p) \/ Free(j, p) \/ Spawn(j, p) \/ Thread(j, p) \/ End(j, p)
Ends(j) == (IF Random THEN RandomElement(1..5) = 1 ELSE TRUE) /\ hist # <<>> /\ Finish(j)
Busy == Go /\ \E j \in Pick(Running) : (\E p \in Pick(Procs(j)) : Move(j, p)) \/ Ends(j)
Rest == Random /\ UNCHANGED vars
Next == Busy \/ Cease \/ Last1 \/ Rest
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* the bounds that a moment gives, when a process has between lo and hi MB of its own *)
PeakOf(s, base) == Most({m[2] + m[1] * base : m \in s})
Peak(j, base) == PeakOf(seen[j], base)
TypeOK == /\ begun \in 0..NJobs /\ done \subseteq 1..begun /\ \A j \in 1..NJobs : tree[j] # <<>> <=> j <= begun
NotMoreThanWorkers == Cardinality(Running) <= NWorkers
(* the peak only ever grows, and only because of the job itself *)
PeakGrows == [][\A j \in 1..NJobs : seen[j] # {} => PeakOf(seen[j], 3) <= PeakOf(seen'[j], 3) /\ (tree[j] = tree'[j] => seen[j] = seen'[j])]_vars
CoversNow == \A j \in Running : Peak(j, 3) >= Of(tree[j])[2] + 3 * Of(tree[j])[1]
OthersDoNotCount == \A j \in 1..NJobs : seen[j] # {} => Peak(j, 0) <= FoldLeft(LAMBDA a, h : a + (IF h.op = "alloc" /\ h.job = j THEN h.arg ELSE 0), 0, hist)
Emit == (done' # done /\ Cardinality(done') = NJobs) => PrintT(ToJson([jobs |-> NJobs, workers |-> NWorkers, hist |-> hist', seen |-> [j \in 1..NJobs |-> SetToSeq(seen'[j])]]))
=============================================================================
