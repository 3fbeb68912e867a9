----------------------------- MODULE ShortNames -----------------------------
(***************************************************************************)
(* How an activity is described in a window that gets resized.              *)
(*                                                                          *)
(* What the description should be is defined in Shorten.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, Shorten

CONSTANTS Sample, MaxCols, MaxLen, Random

VARIABLES what, act, cols
vars == <<what, act, cols>>

-----------------------------------------------------------------------------
RECURSIVE Rep(_, _)
Rep(s, n) == IF n = 0 THEN "" ELSE s \o Rep(s, n - 1)
P(names) == FoldLeft(LAMBDA acc, n : acc \o "/" \o n, "", names)
PathAct(names) == Act("Source", PathOf(names), P(names))
Samples ==
  << Act("Frontend", NoArg, ""), Act("ExecuteCompiler", NoArg, ""),
     Act("RunPass", Text("a"), "a"), Act("RunPass", Text("ab"), "ab"), Act("RunPass", Text("Some Module Analysis Pass"), "Some Module Analysis Pass"),
     Act("RunLoopPass", Text("0123456789012345678901234567890123456789"), "0123456789012345678901234567890123456789"),
     [kind |-> Chars("RunPass"), arg |-> Wides(<<"文", "字", "a", "文", "字">>), src |-> "文字a文字"],
     [kind |-> Chars("RunPass"), arg |-> Wides(<<"文", "字", "文", "字", "文", "字", "文", "字">>), src |-> "文字文字文字文字"],
     [kind |-> Chars("RunPass"), arg |-> Wides(<<"a", "é", "é", "b", "é", "文", "c", "é">>), src |-> "aéébé文cé"],
     PathAct(<<"a">>), PathAct(<<"f.h">>), PathAct(<<"usr", "include", "stuff.h">>), PathAct(<<"usr", "include", "a-file-with-a-rather-long-name.hpp">>),
     PathAct(<<"a-file-with-a-rather-long-name-at-the-root.hpp">>), PathAct(<<"home", "user", "project", "src", "deep", "deeper", "deepest", "x.cpp">>),
     PathAct(<<"a-very-long-directory-name", "b", "c", "d.h">>), PathAct(<<"b", "c", "a-very-long-directory-name", "d.h">>), PathAct(<<"b", "a-very-long-directory-name", "c", "d", "fifteen-chars.h">>),
     PathAct(<<"x", "fourteen-ch.hpp">>), PathAct(<<"x", "y", "sixteen-char.hpp">>), PathAct(<<"longlonglong", "longlonglong", "longlonglong", "l">>),
     [kind |-> Chars("Source"), arg |-> [k |-> "path", t |-> <<<<"文", "字">>, <<"文", "a">>, <<"文", "字", "文", "字", "文", "字", "文", "字", "文", "字", "文", "字">>>>], src |-> "/文字/文a/文字文字文字文字文字文字"],
     [kind |-> Chars("Source"), arg |-> [k |-> "path", t |-> <<>>], src |-> "/"],
     PathAct(<<"p", "…">>),
     Act("ParseClass", Cpp(<<"a">>), "a"), Act("ParseClass", Cpp(<<"…::b", "a::b">>), "a::b"),
     Act("InstantiateClass", Cpp(<<"…::c<…>", "a::b::c<…::d>", "a::b::c<e::d>">>), "a::b::c<e::d>"),
     Act("InstantiateFunction", Cpp(<<"f<…>", "f<g<…>, h<…>>", "f<g<a, b>, h<i<…>>>", "f<g<a, b>, h<i<j>>>">>), "f<g<a,b>,h<i<j>>>"),
     Act("RunLoopPass", Text("<unnamed loop>"), "<unnamed loop>"), Act("RunPass", Text("[module]"), "[module]"),
     \* what cannot be read is shown as it is
     Act("ParseClass", Text("a::b<c>::)("), "a::b<c>::)("), Act("InstantiateFunction", Text("((((((((((((((("), "((((((((((((((("), Act("Source", Text("some/relative/path.h"), "some/relative/path.h"),
     Act("OptFunction", Text("_ZNbroken"), "_ZNbroken"),
     Act("OptFunction", Text("B::insert<>(__gnu_cxx::iter<int*>, &&)"), "_ZN1B6insertIJEEEvN9__gnu_cxx4iterIPiEEDpOT_") >>
(* a text or a path gets typed, then the window is resized *)
Graphemes == {"a", "b", "-", ".", " ", "文", "字", "é", "é", "Z"}
SomeNames == {"a", "b.h", "usr", "include", "文字", "é́t", "fourteen-ch.hpp", "fifteen-chars.h", "sixteen-char.hpp", "a-very-long-directory-name", "文字文字文字文字文字文字文", "…", "x-y-z-0123.cpp"}
SplitName(n) == CASE n = "文字" -> <<"文", "字">> [] n = "é́t" -> <<"é́", "t">> [] n = "文字文字文字文字文字文字文" -> <<"文", "字", "文", "字", "文", "字", "文", "字", "文", "字", "文", "字", "文">> [] n = "…" -> <<"…">> [] OTHER -> Chars(n)
Init == IF Random THEN what = 0 /\ act \in {Act("RunPass", Text(""), ""), Act("RunLoopPass", Text(""), ""), Act("Source", PathOf(<<>>), "")} /\ cols = MaxCols
        ELSE what \in Sample /\ act = Samples[what] /\ cols = MaxCols
Type == /\ Random /\ cols = MaxCols /\ Len(act.arg.t) < MaxLen
        /\ IF act.arg.k = "text"
           THEN \E g \in {RandomElement(Graphemes)} : act' = [act EXCEPT !.arg.t = Append(@, g), !.src = @ \o g]
           ELSE Len(act.arg.t) < 9 /\ \E n \in {RandomElement(SomeNames)} : act' = [act EXCEPT !.arg.t = Append(@, SplitName(n)), !.src = @ \o "/" \o n]
        /\ UNCHANGED <<what, cols>>
Resize == /\ cols > 1 /\ (act.arg.k = "text" => act.arg.t # <<>>) /\ (Random => cols < MaxCols \/ RandomElement(1..10) = 1 \/ Len(act.arg.t) >= (IF act.arg.k = "text" THEN MaxLen ELSE 9))
          /\ \E n \in (IF Random THEN {RandomElement(1..(cols - 1))} ELSE {cols - 1}) : cols' = n
          /\ UNCHANGED <<what, act>>
Next == Type \/ Resize
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
X == act
D == Described(X, cols)
Fits == W(D) <= cols
KindInFront == D # <<>> => IsPrefix(X.kind, D)
FullIfFits == (W(Full(X)) <= cols) => D = Full(X)
NothingOnlyIfNoRoom == D = <<>> => cols < W(X.kind) + 3
OnlyLosesDetail == (D # <<>> /\ D # Full(X)) => \E i \in 1..Len(D) : D[i] = "…"
(* what is kept of a path: names of its, in order, around one ellipsis, with its end *)
PathRules == (X.arg.k = "path" /\ D # <<>> /\ D # Full(X)) =>
   LET s == ShortPath(X.arg.t, cols - W(X.kind) - 2)
       k == Search(Names(X.arg.t), cols - W(X.kind) - 2)
       name == Last(Names(X.arg.t)) IN
   s # Dots => IF k[2] > 0 THEN IsSuffix(name, s) ELSE Last(s) = Last(name)
Table(x) == [n \in 1..MaxCols |-> LET d == Described(x, n) IN <<Joint(d), W(d)>>]
Emit == cols = MaxCols /\ cols' < cols /\ ~(act.arg.k = "text" /\ act.src = "")
        => PrintT(ToJson([what |-> what, src |-> act.src, kind |-> Joint(act.kind), k |-> act.arg.k, table |-> Table(act)]))
=============================================================================
