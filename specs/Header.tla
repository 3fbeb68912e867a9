------------------------------- MODULE Header -------------------------------
(***************************************************************************)
(* The sentence about the origin of a trace on top of a report, in a window  *)
(* that gets resized. It is made of items that are never cut: one that does  *)
(* not fit becomes an ellipsis, and lines are broken between items.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json

CONSTANT MaxCols
VARIABLES has, cols
vars == <<has, cols>>

(* which of pid, thread name and date are known, and how long names are *)
RECURSIVE Rep(_, _)
Rep(s, n) == IF n = 0 THEN "" ELSE s \o Rep(s, n - 1)
Has == [proc : {"c", "clang-14.0.5"}, pid : {"", "7", "123456"}, thread : {"", "t", "clang++-14.0.5"}, date : {"", "1970-01-01T00:00:00Z", "2022-06-29T13:18:22.311015Z"}]
Items(h) == <<"Data from " \o h.proc>>
            \o (IF h.pid = "" THEN <<>> ELSE <<"pid " \o h.pid>>)
            \o (IF h.thread = "" THEN <<>> ELSE <<"thread \"" \o h.thread \o "\"">>)
            \o (IF h.date = "" THEN <<>> ELSE <<"recorded " \o h.date>>)
(* one column stays free for the punctuation *)
Room == cols - 1
Cut(item) == IF Len(item) > Room THEN "…" ELSE item
Wd(s) == IF s = "…" THEN 1 ELSE Len(s)
(* lines, as sequences of items *)
RECURSIVE Break(_, _, _, _)
Break(items, lines, cur, w) ==
  IF items = <<>> THEN Append(lines, cur)
  ELSE LET i == Cut(items[1]) IN
       IF w + 2 + Wd(i) > Room THEN Break(Tail(items), Append(lines, cur), <<i>>, Wd(i))
       ELSE Break(Tail(items), lines, Append(cur, i), w + 2 + Wd(i))
Lines == LET its == Items(has) IN
  IF Len(its[1]) > Room THEN <<<<"…">>>> ELSE Break(Tail(its), <<>>, <<its[1]>>, Len(its[1]))
RECURSIVE Join(_, _)
Join(seq, sep) == IF Len(seq) = 1 THEN seq[1] ELSE seq[1] \o sep \o Join(Tail(seq), sep)
Text == LET t == [i \in 1..Len(Lines) |-> Join(Lines[i], ", ")] IN IF Len(Items(has)[1]) > Room THEN "…" ELSE Join(t, ",\n") \o "."

Init == has \in Has /\ cols = MaxCols
Resize == cols > 1 /\ cols' = cols - 1 /\ UNCHANGED has
Spec == Init /\ [][Resize]_vars

LineWidth(l) == FoldLeft(LAMBDA acc, i : acc + Wd(i) + 2, -2, l)
FitsInWindow == \A i \in 1..Len(Lines) : LineWidth(Lines[i]) + 1 <= cols \/ cols = 1
NothingDropped == (\A i \in 1..Len(Items(has)) : Len(Items(has)[i]) <= Room) => FlattenSeq(Lines) = Items(has)
NoEmptyLine == \A i \in 1..Len(Lines) : Lines[i] # <<>>
Emit == PrintT(ToJson([has |-> has', cols |-> cols', text |-> Text']))
=============================================================================
