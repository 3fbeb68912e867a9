------------------------------ MODULE ItemIntern ------------------------------
(* Interning of single items; keys are numbers below Cap. *)
EXTENDS Naturals, Integers, Sequences, TLC, Json
CONSTANTS Items, MaxOps, Cap
VARIABLES items, ops
vars == <<items, ops>>
Init == items = <<>> /\ ops = <<>>
Find(x) == IF \E i \in 1..Len(items) : items[i] = x THEN CHOOSE i \in 1..Len(items) : items[i] = x ELSE 0
Intern(x) ==
  /\ Len(ops) < MaxOps
  /\ LET i == Find(x) IN
     IF i # 0 THEN UNCHANGED items /\ ops' = Append(ops, [arg |-> x, ans |-> i - 1, len |-> Len(items)])
     ELSE IF Len(items) < Cap
     THEN items' = Append(items, x) /\ ops' = Append(ops, [arg |-> x, ans |-> Len(items), len |-> Len(items) + 1])
     ELSE UNCHANGED items /\ ops' = Append(ops, [arg |-> x, ans |-> -1, len |-> Len(items)])
Next == \E x \in Items : Intern(x)
Spec == Init /\ [][Next]_vars
KeysBijective == \A i, j \in 1..Len(items) : i # j => items[i] # items[j]
Bounded == Len(items) <= Cap
Stable == [][\A i \in 1..Len(items) : items'[i] = items[i]]_vars
Emit == Len(ops') = MaxOps => PrintT(ToJson(ops'))
=============================================================================
