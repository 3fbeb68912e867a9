------------------------------ MODULE SeqIntern ------------------------------
(***************************************************************************)
(* Interning of sequences in one shared backing store. A key is the place   *)
(* of the sequence in the store. A sequence can be interned at once, or     *)
(* built in place at the end of the store (an entry), which is committed or *)
(* rolled back. Keys have a finite number of values.                        *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, TLC, Json

CONSTANTS Items,       \* alphabet
          MaxLen,      \* longest sequence interned at once
          MaxBuild,    \* longest sequence built in an entry
          MaxOps,      \* length of histories
          LenBits, Cap \* a key packs offset and length in one number below Cap

VARIABLES store,   \* concatenated sequences (with the entry in progress at the end)
          keys,    \* keys given out so far: sequence of [off, len], in order
          entry,   \* [open, base]
          ops      \* history of operations with what each must answer
vars == <<store, keys, entry, ops>>

Closed == [open |-> FALSE, base |-> 0]
Init == store = <<>> /\ keys = <<>> /\ entry = Closed /\ ops = <<>>

Sub(s, off, n) == SubSeq(s, off + 1, off + n)
Resolve(st, k) == Sub(st, k.off, k.len)
Fits(off, n) == n < 2 ^ LenBits /\ off * (2 ^ LenBits) + n < Cap
(* position of the key of a sequence among the keys given out, 0 if none *)
Find(st, s) == IF \E i \in 1..Len(keys) : Resolve(st, keys[i]) = s
               THEN CHOOSE i \in 1..Len(keys) : Resolve(st, keys[i]) = s ELSE 0
MaxOf(S) == IF S = {} THEN -1 ELSE CHOOSE x \in S : \A y \in S : y <= x

Refused == -1
NoAnswer == -2
(* what can be observed outside of an entry *)
Obs(st, ks) == [len |-> Len(ks), items |-> Len(st), max |-> MaxOf({ks[i].len : i \in 1..Len(ks)}),
                table |-> [i \in 1..Len(ks) |-> Resolve(st, ks[i])]]
Log(op, arg, ans, st, ks) == ops' = Append(ops, [op |-> op, arg |-> arg, ans |-> ans,
   obs |-> IF op \in {"intern", "commit", "abandon"} THEN Obs(st, ks) ELSE [len |-> 0, items |-> 0, max |-> 0, table |-> <<>>],
   elen |-> Len(st) - entry'.base])
More == Len(ops) < MaxOps

Intern(s) ==
  LET i == Find(store, s) IN
  /\ More /\ ~entry.open /\ UNCHANGED entry
  /\ IF i # 0 THEN UNCHANGED <<store, keys>> /\ Log("intern", s, i - 1, store, keys)
     ELSE IF Fits(Len(store), Len(s))
     THEN /\ store' = store \o s /\ keys' = Append(keys, [off |-> Len(store), len |-> Len(s)])
          /\ Log("intern", s, Len(keys), store', keys')
     ELSE UNCHANGED <<store, keys>> /\ Log("intern", s, Refused, store, keys)

Begin == /\ More /\ ~entry.open /\ entry' = [open |-> TRUE, base |-> Len(store)]
         /\ UNCHANGED <<store, keys>> /\ Log("begin", <<>>, NoAnswer, store, keys)
Push(x) == /\ More /\ entry.open /\ Len(store) - entry.base < MaxBuild
           /\ store' = Append(store, x) /\ UNCHANGED <<keys, entry>> /\ Log("push", <<x>>, NoAnswer, store', keys)
Pop == /\ More /\ entry.open /\ UNCHANGED <<keys, entry>>
       /\ IF Len(store) > entry.base
          THEN store' = SubSeq(store, 1, Len(store) - 1) /\ Log("pop", <<>>, store[Len(store)], store', keys)
          ELSE UNCHANGED store /\ Log("pop", <<>>, Refused, store, keys)
Rollback == SubSeq(store, 1, entry.base)
Commit ==
  LET s == SubSeq(store, entry.base + 1, Len(store)) i == Find(store, s) IN
  /\ More /\ entry.open /\ entry' = Closed
  /\ IF i # 0 THEN store' = Rollback /\ UNCHANGED keys /\ Log("commit", <<>>, i - 1, store', keys)
     ELSE IF Fits(entry.base, Len(s))
     THEN /\ UNCHANGED store /\ keys' = Append(keys, [off |-> entry.base, len |-> Len(s)])
          /\ Log("commit", <<>>, Len(keys), store, keys')
     ELSE store' = Rollback /\ UNCHANGED keys /\ Log("commit", <<>>, Refused, store', keys)
Abandon == /\ More /\ entry.open /\ entry' = Closed /\ store' = Rollback /\ UNCHANGED keys
           /\ Log("abandon", <<>>, NoAnswer, store', keys)

Next == \/ \E s \in SeqOf(Items, MaxLen) : Intern(s)
        \/ Begin \/ (\E x \in Items : Push(x)) \/ Pop \/ Commit \/ Abandon
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
(* Properties *)
Values == [i \in 1..Len(keys) |-> Resolve(store, keys[i])]
KeysBijective == \A i, j \in 1..Len(keys) : i # j => keys[i] # keys[j] /\ Values[i] # Values[j]
Packed(k) == k.off * (2 ^ LenBits) + k.len
NoCollision == \A i, j \in 1..Len(keys) : i # j => Packed(keys[i]) # Packed(keys[j]) /\ Packed(keys[i]) < Cap
(* outside of an entry, the store holds the interned sequences and nothing else *)
NoResidue == ~entry.open => Len(store) = FoldLeft(LAMBDA a, k : a + k.len, 0, keys)
(* keys keep resolving to the same values *)
Stable == [][\A i \in 1..Len(keys) : keys'[i] = keys[i] /\ Resolve(store', keys'[i]) = Resolve(store, keys[i])]_vars
AbandonIsNothing == [][(entry.open /\ ~entry'.open /\ ops'[Len(ops')].op = "abandon") =>
                        (keys' = keys /\ store' = SubSeq(store, 1, entry.base))]_vars
Constraint == Len(ops) <= MaxOps
Emit == (Len(ops') = MaxOps /\ ~entry'.open) => PrintT(ToJson(ops'))
=============================================================================
