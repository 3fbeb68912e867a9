---------------------------- MODULE LongActivity ----------------------------
(***************************************************************************)
(* An activity that takes longer and longer, around the durations where the  *)
(* way of writing them changes.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, Durations
CONSTANT Span
VARIABLES n, unit, start
vars == <<n, unit, start>>

(* number of units, unit in microseconds *)
Turns == { <<0, 1>>, <<994, 1>>, <<9990, 1>>, <<99980, 1>>, <<999985, 1>>, <<9999984, 1>>, <<59994990, 1>>, <<60004990, 1>>, <<119994990, 1>>, <<599994990, 1>>, <<659994990, 1>>, <<2046005, 1>>,
           <<999498, 1000>>, <<354, 10000000>>,
           <<359999490, 10>>, <<360000490, 10>>, <<719999490, 10>>, <<365999490, 10>>, <<2146999490, 10>>,
           <<359999945, 100>>, <<863999940, 100>>, <<864000040, 100>>, <<864599940, 100>>, <<1727999940, 100>>,
           <<863999990, 1000>>, <<86399990, 1000>>, <<172799990, 1000>>, <<90061990, 1000>>, <<950400000, 1000>>,
           <<8639995, 10000>>, <<86399995, 10000>>, <<91, 10000>>, <<5995, 10000>>, <<359995, 10000>>, <<863995, 100000>>, <<3599, 1000000>>, <<86395, 1000000>>, <<8635, 10000000>>, <<1003680, 10000000>> }
Init == \E t \in Turns : n = t[1] /\ unit = t[2] /\ start = t[1]
Tick == n < start + Span /\ n' = n + 1 /\ UNCHANGED <<unit, start>>
Spec == Init /\ [][Tick]_vars

(* reading back what is written *)
Texts == WrittenIn(n, unit)
Digits == "0123456789"
DigitOf(ch) == CHOOSE d \in 0..9 : SubSeq(Digits, d + 1, d + 1) = ch
RECURSIVE Num(_)
Num(s) == IF s = "" THEN 0 ELSE Num(SubSeq(s, 1, Len(s) - 1)) * 10 + DigitOf(SubSeq(s, Len(s), Len(s)))
IsClock(s) == \E i \in 1..Len(s) : SubSeq(s, i, i) = ":"
IsSeconds(s) == ~IsClock(s) /\ Len(s) > 3 /\ SubSeq(s, Len(s), Len(s)) = "s" /\ SubSeq(s, Len(s) - 3, Len(s) - 3) = "."
At(s, i) == SubSeq(s, Len(s) - i, Len(s) - i)
Pair(s, i) == DigitOf(At(s, i + 1)) * 10 + DigitOf(At(s, i))
(* clock times: the seconds and minutes at fixed distances from the end *)
NoOverflowingField == \A s \in Texts : IsClock(s) => /\ Pair(s, 3) < 60 /\ At(s, 5) = ":" /\ At(s, 2) = "."
                                                     /\ Len(s) >= 10 => (At(s, 8) = ":" => (Pair(s, 6) < 60 /\ (Len(s) >= 11 => At(s, 10) = " " \/ Pair(s, 9) < 24)))
(* microseconds a clock time under an hour stands for, in hundredths of seconds *)
Cs(s) == LET c == CHOOSE i \in 1..Len(s) : SubSeq(s, i, i) = ":" IN Num(SubSeq(s, 1, c - 1)) * 6000 + Pair(s, 3) * 100 + Pair(s, 0)
Abs(x) == IF x < 0 THEN -x ELSE x
CloseEnough == \A s \in Texts : (IsClock(s) /\ Len(s) <= 8 /\ unit = 1) => Abs(Cs(s) * 10000 - n) <= 5000
Emit == PrintT(ToJson([n |-> n', unit |-> unit', written |-> WrittenIn(n', unit')]))
=============================================================================
