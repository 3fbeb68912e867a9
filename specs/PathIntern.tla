----------------------------- MODULE PathIntern -----------------------------
(***************************************************************************)
(* Interning of absolute paths by their normalized form. A path as written  *)
(* is a sequence of segments, separated by "/": names, "." and "..", and    *)
(* empty segments (repeated, leading and trailing separators). A path is    *)
(* absolute iff its first segment is empty and it has a separator.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json

CONSTANTS Names, MaxSegs, MaxOps
VARIABLES known,   \* distinct normalized paths interned so far, in order
          seen,    \* names met in absolute paths so far
          ops
vars == <<known, seen, ops>>

Dot == "."  Up == ".."  Void == ""
Root == "/"
Segments == Names \cup {Dot, Up, Void}
(* at least one separator, or a relative path of one segment *)
Written == UNION {[1..n -> Segments] : n \in 1..MaxSegs}
IsAbsolute(p) == Len(p) >= 2 /\ p[1] = Void

Step(acc, seg) == CASE seg = Dot \/ seg = Void -> acc
                    [] seg = Up -> IF Len(acc) > 1 THEN SubSeq(acc, 1, Len(acc) - 1) ELSE acc
                    [] OTHER -> Append(acc, seg)
Normal(p) == FoldLeft(Step, <<Root>>, p)

Find(n) == IF \E i \in 1..Len(known) : known[i] = n THEN CHOOSE i \in 1..Len(known) : known[i] = n ELSE 0
NumComps(ks) == FoldLeft(LAMBDA a, k : a + Len(k), 0, ks)
Comps(ks) == UNION {ToSet(ks[i]) : i \in 1..Len(ks)}
MaxLen(ks) == FoldLeft(LAMBDA a, k : IF Len(k) > a THEN Len(k) ELSE a, -1, ks)
Refused == -1
Log(p, ans) == ops' = Append(ops, [path |-> p, ans |-> ans, table |-> known', comps |-> NumComps(known'),
     uniq |-> Cardinality(Comps(known')), seen |-> Cardinality(seen' \cup Comps(known')), max |-> MaxLen(known')])

Init == known = <<>> /\ seen = {} /\ ops = <<>>
Intern(p) ==
  /\ Len(ops) < MaxOps
  /\ IF ~IsAbsolute(p) THEN UNCHANGED <<known, seen>> /\ Log(p, Refused)
     ELSE LET n == Normal(p) i == Find(n) IN
       /\ seen' = seen \cup (ToSet(p) \cap Names)
       /\ IF i # 0 THEN UNCHANGED known /\ Log(p, i - 1)
          ELSE known' = Append(known, n) /\ Log(p, Len(known))
Next == \E p \in Written : Intern(p)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
(* Normal forms have no ".", ".." or empty segment and are rooted exactly once *)
Rooted == \A i \in 1..Len(known) : /\ known[i][1] = Root
                                   /\ \A j \in 2..Len(known[i]) : known[i][j] \in Names
(* the written normal form normalizes to itself *)
Idempotent == \A i \in 1..Len(known) : Normal(<<Void>> \o Tail(known[i])) = known[i]
Distinct == \A i, j \in 1..Len(known) : i # j => known[i] # known[j]
(* the directory reached by walking the written path from the root, never above it *)
Walk(p) == LET RECURSIVE D(_)
               D(i) == IF i = 0 THEN <<>>
                       ELSE IF p[i] \in Names THEN Append(D(i - 1), p[i])
                       ELSE IF p[i] = Up /\ D(i - 1) # <<>> THEN Front(D(i - 1)) ELSE D(i - 1)
           IN D(Len(p))
Faithful == \A k \in 1..Len(ops) : ops[k].ans # Refused => ops[k].table[ops[k].ans + 1] = <<Root>> \o Walk(ops[k].path)
Stable == [][IsPrefix(known, known')]_vars
RelativeIsNothing == [][~IsAbsolute(ops'[Len(ops')].path) => UNCHANGED <<known, seen>>]_vars
Emit == Len(ops') = MaxOps => PrintT(ToJson(ops'))
=============================================================================
