------------------------------ MODULE BigTrees ------------------------------
(***************************************************************************)
(* Traces with many activities, of regular shapes which grow one activity    *)
(* after the other, in the order of their ends. As in ActivityTree, the      *)
(* parent of an activity is the first later one that encloses it.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Shapes, Sizes
VARIABLES shape, n, err
vars == <<shape, n, err>>

(* interval number i of n; leaves of 1 unit with a gap of 1 between them *)
Chain(i, m) == <<m - i, m + i>>
Fan(i, m) == IF i = m THEN <<0, 2 * m>> ELSE <<2 * i, 2 * i + 1>>
Roots(i, m) == <<2 * i, 2 * i + 1>>
(* every other activity encloses all before it *)
Comb(i, m) == IF i % 2 = 1 THEN <<2 * m + 4 * i, 2 * m + 4 * i + 1>> ELSE <<2 * m - i, 2 * m + 4 * i>>
(* groups of 10 leaves, without gaps *)
Groups(i, m) == IF i % 11 = 0 THEN <<i - 11, i - 1>> ELSE <<i - 1, i>>
(* all at the same time *)
Same(i, m) == <<5, 9>>
(* none takes any time *)
Instants(i, m) == <<i \div 3, i \div 3>>

At(i) == CASE shape = "chain" -> Chain(i, n) [] shape = "fan" -> Fan(i, n) [] shape = "roots" -> Roots(i, n) [] shape = "comb" -> Comb(i, n)
           [] shape = "groups" -> Groups(i, n) [] shape = "same" -> Same(i, n) [] shape = "instants" -> Instants(i, n)
(* the parents that these shapes have, 0 if none *)
Parent(i) == CASE shape = "chain" -> IF i = n THEN 0 ELSE i + 1
               [] shape = "fan" -> IF i = n THEN 0 ELSE n
               [] shape = "roots" -> 0
               [] shape = "comb" -> IF i % 2 = 1 THEN (IF i = n THEN 0 ELSE i + 1) ELSE (IF i + 2 <= n THEN i + 2 ELSE 0)
               [] shape = "groups" -> LET g == 11 * ((i + 10) \div 11) IN IF i = g \/ g > n THEN 0 ELSE g
               [] shape = "same" -> IF i = n THEN 0 ELSE i + 1
               [] shape = "instants" -> IF i < n /\ (i + 1) \div 3 = i \div 3 THEN i + 1 ELSE 0
Iv == [i \in 1..n |-> At(i)]
Par == [i \in 1..n |-> Parent(i)]

(* ... as the definition has it *)
Encloses(a, b) == a[1] <= b[1] /\ b[2] <= a[2]
ParentIsFirstEnclosing == n > 40 \/ \A i \in 1..n : LET later == {j \in (i + 1)..n : Encloses(Iv[j], Iv[i])} IN
   Par[i] = IF later = {} THEN 0 ELSE CHOOSE j \in later : \A k \in later : j <= k
EndsInOrder == n > 40 \/ \A i \in 2..n : Iv[i - 1][2] <= Iv[i][2]
NoOverlap == n > 40 \/ \A i \in 1..n : \A j \in (i + 1)..n : Encloses(Iv[j], Iv[i]) \/ Iv[i][2] <= Iv[j][1] 

Init == shape \in Shapes /\ n = 1 /\ err = ""
Grow == n < 40 /\ n' = n + 1 /\ UNCHANGED <<shape, err>>
Jump == n = 40 /\ n' \in Sizes /\ UNCHANGED <<shape, err>>
Spec == Init /\ [][Grow \/ Jump]_vars
Emit == PrintT(ToJson([shape |-> shape, n |-> n', iv |-> Iv', par |-> Par']))
=============================================================================
