----------------------------- MODULE Freshness -----------------------------
(***************************************************************************)
(* Files coming, going and being modified, and what can be said of a product *)
(* (a build profile or a compiler output) that depends on some of them.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Inputs, Times, MaxOps

VARIABLES mtime, hist       \* file -> time of last modification, or -1 when there is no such file
vars == <<mtime, hist>>
Product == "product"
Db == "db"
All == Inputs \cup {Product, Db}

Exists(f) == mtime[f] >= 0
(* What is said of the product when it depends on the database and files D *)
Verdict(D) == IF ~Exists(Product) THEN "Nonexistent"
              ELSE IF ~Exists(Db) \/ \E f \in D : ~Exists(f) THEN "Unknown"      \* something it depends on cannot be examined
              ELSE IF mtime[Product] < mtime[Db] \/ \E f \in D : mtime[Product] < mtime[f] THEN "Outdated"
              ELSE "MaybeOutdated"
(* all the answers there are *)
Answers == [profile |-> Verdict(Inputs), derived |-> [f \in Inputs |-> Verdict({f})]]

Init == /\ mtime \in [All -> {-1, 0}] /\ hist = <<>>
Touch == \E f \in All, t \in Times : mtime[f] # t /\ mtime' = [mtime EXCEPT ![f] = t]
Remove == \E f \in All : Exists(f) /\ mtime' = [mtime EXCEPT ![f] = -1]
Next == /\ Len(hist) < MaxOps /\ (Touch \/ Remove)
        /\ hist' = Append(hist, [m |-> mtime', a |-> Answers'])
Spec == Init /\ [][Next]_vars
View == mtime

-----------------------------------------------------------------------------
NeverFreshWhenOlder == (\E f \in Inputs \cup {Db} : Exists(Product) /\ Exists(f) /\ mtime[f] > mtime[Product]) => Verdict(Inputs) # "MaybeOutdated"
(* touching something it depends on later than the product is noticed, rebuilding cures it *)
RebuildCures == [][mtime'[Product] > mtime[Product] /\ (\A f \in All : mtime'[f] <= mtime'[Product]) /\ (\A f \in All : mtime'[f] >= 0) => Verdict(Inputs)' = "MaybeOutdated"]_vars
ProfileIsWorstOutput == (\E f \in Inputs : Verdict({f}) = "Outdated") => Verdict(Inputs) \in {"Outdated", "Unknown"}

Emit == Len(hist') = MaxOps => PrintT(ToJson(hist'))
EmitAny == PrintT(ToJson(<<[m |-> mtime', a |-> Answers']>>))
=============================================================================
