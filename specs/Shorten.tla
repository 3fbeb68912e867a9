------------------------------ MODULE Shorten ------------------------------
(***************************************************************************)
(* Descriptions of activities, in full and shortened to a number of columns. *)
(*                                                                          *)
(* Texts are sequences of graphemes, each one or two columns wide. The       *)
(* argument of an activity is a plain text, a path or a C++ name, for which   *)
(* a text at each level of detail is known.                                 *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE SequencesExt

Wide == {"文", "字"}
Width(g) == IF g \in Wide THEN 2 ELSE 1
W(text) == FoldLeft(LAMBDA acc, g : acc + Width(g), 0, text)
Dots == <<"…">>
Chars(str) == [i \in 1..Len(str) |-> SubSeq(str, i, i)]

(* longest beginning, and end, of a text in n columns *)
Fitting(t, n) == FoldLeft(LAMBDA acc, g : IF acc.over \/ Width(g) > acc.left THEN [acc EXCEPT !.over = TRUE] ELSE [acc EXCEPT !.left = @ - Width(g), !.k = @ + 1],
                          [k |-> 0, left |-> n, over |-> FALSE], t).k
Head_(t, n) == SubSeq(t, 1, Fitting(t, n))
Tail_(t, n) == SubSeq(t, Len(t) - Fitting(Reverse(t), n) + 1, Len(t))

(* a plain text loses its middle *)
ShortText(t, n) == IF W(t) <= n THEN t
                   ELSE LET h == Head_(t, (n - 1) \div 2) IN h \o Dots \o Tail_(t, n - 1 - W(h))

(* a path, given as a list of names after the root, loses whole names in its middle; as many are kept as fit,
   alternately from the end and from the start *)
RootName == <<"/">>
Names(p) == <<RootName>> \o p
Cost(name, last) == W(name) + (IF last \/ name = RootName THEN 0 ELSE 1)
(* the search: f and b names were looked at in front and back, kf and kb were kept; once one did not fit, the rest is taken from the other side *)
Look(ns, s) ==
  IF s.over THEN s
  ELSE LET name == IF s.front THEN ns[s.f + 1] ELSE ns[Len(ns) - s.b]
           last == s.kf + s.kb = Len(ns) - 1
           cost == Cost(name, last)
           fits == cost <= s.left - (IF last THEN 0 ELSE 1)
       IN [f |-> s.f + (IF s.front THEN 1 ELSE 0), b |-> s.b + (IF s.front THEN 0 ELSE 1),
           kf |-> s.kf + (IF s.front /\ fits THEN 1 ELSE 0), kb |-> s.kb + (IF ~s.front /\ fits THEN 1 ELSE 0),
           left |-> IF fits THEN s.left - cost ELSE s.left, front |-> IF s.full THEN s.front ELSE ~s.front,
           full |-> s.full \/ ~fits, over |-> s.full /\ ~fits]
Search(ns, n) == LET s == FoldLeft(LAMBDA acc, k : Look(ns, acc), [f |-> 0, b |-> 0, kf |-> 0, kb |-> 0, left |-> n, front |-> FALSE, full |-> FALSE, over |-> FALSE], ns) IN <<s.kf, s.kb>>
Joined(ns) == FoldLeft(LAMBDA acc, name : IF acc = <<>> \/ acc = RootName THEN acc \o name ELSE acc \o <<"/">> \o name, <<>>, ns)
WholePath(p) == IF p = <<>> THEN RootName ELSE Joined(Names(p))
MinFileName == 15
ShortOf(ns, n) ==
  LET k == Search(ns, n) IN
  IF W(Joined(ns)) <= n THEN Joined(ns)
  ELSE IF k[2] = 0
  THEN IF n < MinFileName + 2 THEN Dots
       ELSE LET name == Last(ns)
                h == Head_(name, (n - 3) \div 2)
            IN Dots \o <<"/">> \o h \o Dots \o Tail_(name, n - 3 - W(h))
  ELSE LET f == SubSeq(ns, 1, k[1])
           b == SubSeq(ns, Len(ns) - k[2] + 1, Len(ns))
           start == IF f = <<>> THEN <<>> ELSE IF f = <<RootName>> THEN RootName ELSE Joined(f) \o <<"/">>
       IN start \o Dots \o <<"/">> \o Joined(b)
ShortPath(p, n) == IF p = <<>> THEN RootName ELSE ShortOf(Names(p), n)

(* a C++ name has less detail *)
Levels(a) == a.levels
ShortCpp(a, n) == LET fit == {i \in 1..Len(a.levels) : W(a.levels[i]) <= n} IN
                  IF fit = {} THEN Dots ELSE a.levels[CHOOSE i \in fit : \A j \in fit : j <= i]

Whole(a) == CASE a.k = "text" -> a.t [] a.k = "path" -> WholePath(a.t) [] a.k = "cpp" -> Last(a.levels)
Short(a, n) == CASE a.k = "text" -> ShortText(a.t, n) [] a.k = "path" -> ShortPath(a.t, n) [] a.k = "cpp" -> ShortCpp(a, n)

(* the description of an activity; <<>> when there is no room for it *)
Full(x) == IF x.arg.k = "none" THEN x.kind ELSE x.kind \o <<"(">> \o Whole(x.arg) \o <<")">>
Described(x, n) ==
  IF x.arg.k = "none" THEN (IF W(x.kind) <= n THEN x.kind ELSE <<>>)
  ELSE IF W(x.kind) + 3 > n THEN <<>>
  ELSE x.kind \o <<"(">> \o Short(x.arg, n - W(x.kind) - 2) \o <<")">>

Text(str) == [k |-> "text", t |-> Chars(str)]
PathOf(names) == [k |-> "path", t |-> [i \in 1..Len(names) |-> Chars(names[i])]]
Cpp(levels) == [k |-> "cpp", levels |-> [i \in 1..Len(levels) |-> Chars(levels[i])]]
Act(kind, arg, src) == [kind |-> Chars(kind), arg |-> arg, src |-> src]
NoArg == [k |-> "none"]
Wides(str) == [k |-> "text", t |-> str]
Joint(t) == FoldLeft(LAMBDA a, g : a \o g, "", t)
=============================================================================
