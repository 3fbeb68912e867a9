---------------------------- MODULE ActivityTree ----------------------------
(***************************************************************************)
(* Incremental construction of the tree of clang activities.               *)
(*                                                                         *)
(* Activities are inserted one by one, in file order. The transition below *)
(* is structured like the implementation: walk back over the roots of the  *)
(* forest built so far, adopt those that start no earlier than the         *)
(* newcomer, stop at the first that ends before it starts, reject partial  *)
(* overlap. The property level (invariants) is stated independently, on    *)
(* the intervals alone.                                                    *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, FiniteSetsExt

CONSTANTS MaxT,      \* timestamps are 0..MaxT
          MaxN,      \* number of insertions attempted
          ErrLast,   \* TRUE: faulty insertions only as last step
          EmitFrom,  \* emit behaviours of at least that many insertions
          MaxStep    \* how much later than the previous one an activity may end

VARIABLES ev,      \* sequence of accepted intervals [s, e]
          roots,   \* current forest roots, oldest first (indices into ev)
          parent,  \* parent[i]: index of the parent, 0 for a root
          kidsdur, \* kidsdur[i]: summed duration of direct children
          err      \* "" or the reason of rejection of the last insertion

vars == <<ev, roots, parent, kidsdur, err>>

Interval == { [s |-> a, e |-> b] : a \in 0..MaxT, b \in 0..MaxT }
Intervals == { x \in Interval : x.s <= x.e }

Init == ev = <<>> /\ roots = <<>> /\ parent = <<>> /\ kidsdur = <<>> /\ err = ""

LastEnd == IF ev = <<>> THEN 0 ELSE ev[Len(ev)].e

(* Walk back from root position p: number of roots kept, or -1 on overlap *)
RECURSIVE Scan(_, _)
Scan(iv, p) ==
  IF p = 0 THEN 0
  ELSE LET c == ev[roots[p]] IN
       IF c.s < iv.s THEN (IF c.e <= iv.s THEN p ELSE -1)
       ELSE Scan(iv, p - 1)

SumDur(S) == FoldSet(LAMBDA i, acc : (ev[i].e - ev[i].s) + acc, 0, S)

Accept(iv, keep) ==
  LET n == Len(ev) + 1
      adopted == { roots[k] : k \in (keep + 1)..Len(roots) }
  IN /\ ev' = Append(ev, iv)
     /\ parent' = Append([i \in 1..Len(ev) |-> IF i \in adopted THEN n ELSE parent[i]], 0)
     /\ kidsdur' = Append(kidsdur, SumDur(adopted))
     /\ roots' = Append(SubSeq(roots, 1, keep), n)
     /\ err' = ""

Reject(iv, why) ==
  /\ ev' = Append(ev, iv)      \* the trace that was tried, for the record
  /\ err' = why
  /\ UNCHANGED <<roots, parent, kidsdur>>

Insert(iv) ==
  /\ err = "" /\ Len(ev) < MaxN /\ iv.e <= LastEnd + MaxStep
  /\ LET keep == Scan(iv, Len(roots)) IN
     IF iv.e < LastEnd
       THEN (ErrLast => Len(ev) = MaxN - 1) /\ Reject(iv, "order")
     ELSE IF keep = -1
       THEN (ErrLast => Len(ev) = MaxN - 1) /\ Reject(iv, "overlap")
     ELSE Accept(iv, keep)

Next == \E iv \in Intervals : Insert(iv)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Property level: everything follows from the intervals *)
N == IF err = "" THEN Len(ev) ELSE Len(ev) - 1
Idx == 1..N
Later(i) == { j \in Idx : j > i /\ ev[j].s <= ev[i].s }
ParentOf(i) == IF Later(i) = {} THEN 0 ELSE Min(Later(i))
RECURSIVE Ancestors(_)
Ancestors(i) == IF parent[i] = 0 THEN {} ELSE {parent[i]} \cup Ancestors(parent[i])
Nested(i, j) == ev[j].s <= ev[i].s /\ ev[i].e <= ev[j].e
Desc(j) == { i \in Idx : j \in Ancestors(i) }
Dur(i) == ev[i].e - ev[i].s
SelfDur(i) == Dur(i) - kidsdur[i]
Sum(S, op(_)) == FoldSet(LAMBDA i, acc : op(i) + acc, 0, S)

ParentIsFirstEnclosing == \A i \in Idx : parent[i] = ParentOf(i)
DescendantsAreNested == \A i, j \in Idx : j \in Ancestors(i) => i < j /\ Nested(i, j)
(* ... and conversely, except for a zero-length activity on the boundary of *)
(* two activities, which belongs to the first of them                       *)
NestedAreDescendants == \A i, j \in Idx :
   (i < j /\ Nested(i, j) /\ j \notin Ancestors(i)) => (Dur(i) = 0 /\ ev[i].s = ev[j].s)
DescendantsContiguous == \A j \in Idx : Desc(j) = {} \/ Desc(j) = Min(Desc(j))..(j - 1)
RootsAreParentless == ToSet(roots) = { i \in Idx : parent[i] = 0 }
ChildrenDisjoint == \A i, j \in Idx : (i < j /\ parent[i] = parent[j]) => ev[i].e <= ev[j].s \/ Dur(j) = 0 \/ ev[i].s = ev[j].s
SelfNonNegative == \A i \in Idx : SelfDur(i) >= 0
KidsDurIsSum == \A j \in Idx : kidsdur[j] = Sum({ i \in Idx : parent[i] = j }, Dur)
SelfSumsToTotal == Sum(Idx, SelfDur) = Sum({ i \in Idx : parent[i] = 0 }, Dur)
OrderErrorJustified == err = "order" => ev[N + 1].e < ev[N].e
OverlapErrorJustified == err = "overlap" =>
   /\ (N > 0 => ev[N + 1].e >= ev[N].e)
   /\ \E i \in Idx : ev[i].s < ev[N + 1].s /\ ev[N + 1].s < ev[i].e
AcceptedAreClean == \A i, j \in Idx : i < j =>
   /\ ev[i].e <= ev[j].e
   /\ ~(ev[i].s < ev[j].s /\ ev[j].s < ev[i].e)

-----------------------------------------------------------------------------
(* Emission of behaviours: the complete trace and the forest predicted *)
Case == [ iv |-> [k \in 1..Len(ev) |-> <<ev[k].s, ev[k].e>>],
          err |-> err,
          par |-> parent,
          roots |-> roots,
          self |-> [i \in 1..Len(parent) |-> Dur(i) - kidsdur[i]] ]
Emit == (Len(ev') >= EmitFrom) => PrintT(ToJson(Case'))
=============================================================================
