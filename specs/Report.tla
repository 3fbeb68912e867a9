------------------------------- MODULE Report -------------------------------
(***************************************************************************)
(* A compiler at work, as seen by its time trace, and the report on it.     *)
(*                                                                          *)
(* Activities begin, take time and end, nested in one another; several of    *)
(* them, or none, can be at the top level. The report is defined from the    *)
(* finished activities and two thresholds (thousandths of the total). All    *)
(* times are multiples of a time unit, in microseconds.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC, Json, Durations

CONSTANTS Kinds, Unit, Spends, SelfShares, TreeShares, MaxActs, MaxDepth, MaxSpends, MaxRoots, Random

VARIABLES clock, stack, acts, begun, spent, selfT, treeT
vars == <<clock, stack, acts, begun, spent, selfT, treeT>>

(* acts: finished activities in order of ending, [kind, id, start, dur, parent (id, 0 at the top)] *)
Pick(S) == IF S = {} THEN {} ELSE IF Random THEN {RandomElement(S)} ELSE S
Init == /\ clock = 0 /\ stack = <<>> /\ acts = <<>> /\ begun = 0 /\ spent = 0
        /\ selfT \in SelfShares /\ treeT \in TreeShares
Roots == Cardinality({i \in 1..Len(acts) : acts[i].parent = 0})
Begin == /\ begun < MaxActs /\ Len(stack) < MaxDepth /\ (stack = <<>> => Roots < MaxRoots)
         /\ \E k \in Pick(Kinds) : stack' = Append(stack, [kind |-> k, id |-> begun + 1, start |-> clock, parent |-> IF stack = <<>> THEN 0 ELSE Last(stack).id])
         /\ begun' = begun + 1 /\ UNCHANGED <<clock, acts, spent, selfT, treeT>>
Spend == /\ spent < MaxSpends
         /\ \E d \in Pick(Spends) : clock' = clock + d
         /\ spent' = spent + 1 /\ UNCHANGED <<stack, acts, begun, selfT, treeT>>
(* (activities without a duration are left to ActivityTree) *)
End == /\ stack # <<>> /\ clock > Last(stack).start
       /\ LET a == Last(stack) IN acts' = Append(acts, [kind |-> a.kind, id |-> a.id, start |-> a.start, dur |-> clock - a.start, parent |-> a.parent])
       /\ stack' = Front(stack) /\ UNCHANGED <<clock, begun, spent, selfT, treeT>>
Next == Begin \/ Spend \/ End
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Idx == 1..Len(acts)
SumOver(S, f(_)) == FoldSet(LAMBDA i, acc : f(i) + acc, 0, S)
Dur(i) == acts[i].dur
Kids(i) == {j \in Idx : acts[j].parent = acts[i].id}
Tops == {j \in Idx : acts[j].parent = 0}
SelfDur(i) == Dur(i) - SumOver(Kids(i), Dur)
Total == SumOver(Tops, Dur)

(* shares in thousandths *)
Reaches(d, t) == d * 1000 >= t * Total
Exactly(d, t) == d * 1000 = t * Total /\ d # 0
Decreasing(seq, f(_)) == \A i \in 1..(Len(seq) - 1) : f(seq[i]) >= f(seq[i + 1])
Sorted(S, f(_)) == SetToSortSeq(S, LAMBDA x, y : f(x) > f(y) \/ (f(x) = f(y) /\ x < y))

KindsSeen == {acts[i].kind : i \in Idx}
KindSum(k) == SumOver({i \in Idx : acts[i].kind = k}, SelfDur)
Breakdown == LET ks == {k \in KindsSeen : Reaches(KindSum(k), selfT)} IN
  [rows |-> [k \in ks |-> KindSum(k)], others |-> Cardinality(KindsSeen) - Cardinality(ks)]
Hot == {i \in Idx : Reaches(SelfDur(i), selfT)}
Flat == [rows |-> [n \in 1..Cardinality(Hot) |-> LET i == Sorted(Hot, SelfDur)[n] IN <<i, SelfDur(i)>>], others |-> Len(acts) - Cardinality(Hot)]
(* hierarchical part: what is listed under each listed activity *)
Listed(i) == {j \in Kids(i) : Reaches(Dur(j), treeT)}
Tree == [i \in Idx |-> [listed |-> Sorted(Listed(i), Dur), others |-> Cardinality(Kids(i)) - Cardinality(Listed(i))]]
(* Thresholds that are exactly reached: floating point only settles it for powers of two *)
Powers == {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024}
Ambiguous == \/ (Total \notin Powers \/ selfT \notin {0, 125, 250, 500, 1000}) /\ (\E i \in Idx : Exactly(SelfDur(i), selfT)) 
             \/ (Total \notin Powers \/ selfT \notin {0, 125, 250, 500, 1000}) /\ (\E k \in KindsSeen : Exactly(KindSum(k), selfT))
             \/ (Total \notin Powers \/ treeT \notin {0, 125, 250, 500, 1000}) /\ (\E i \in Idx : Exactly(Dur(i), treeT))

-----------------------------------------------------------------------------
Done == stack = <<>>
(* Every microsecond is accounted for *)
SelfSumsUp == Done => SumOver(Idx, SelfDur) = Total
KindsSumUp == Done => SumOver(KindsSeen, KindSum) = Total
NoNegative == \A i \in Idx : SelfDur(i) >= 0
(* Every activity is listed or counted *)
FlatComplete == Done => Cardinality(Hot) + Flat.others = Len(acts)
ListedOnce == Done => \A i \in Idx : Len(Tree[i].listed) + Tree[i].others = Cardinality(Kids(i)) /\ Decreasing(Tree[i].listed, Dur)
(* an activity is not listed in the tree unless its caller would be with the same threshold *)
CallersFirst == Done => \A i \in Idx : \A j \in Listed(i) : acts[i].parent # 0 => Reaches(Dur(i), treeT)

Case == [acts |-> acts, total |-> Total, unit |-> Unit, selfT |-> selfT, treeT |-> treeT, written |-> [i \in Idx |-> <<WrittenIn(Dur(i), Unit), WrittenIn(SelfDur(i), Unit)>>],
         kinds |-> Breakdown, kindsWritten |-> [k \in DOMAIN Breakdown.rows |-> WrittenIn(Breakdown.rows[k], Unit)], flat |-> Flat, tree |-> Tree]
Emit == (stack' = <<>> /\ acts' # acts /\ ~Ambiguous' /\ (Random => Len(acts') >= 4)) => PrintT(ToJson(Case'))
=============================================================================
