----------------------------- MODULE LongNames -----------------------------
(***************************************************************************)
(* Names that get longer and longer, and sessions that get bigger and       *)
(* bigger.                                                                  *)
(*                                                                          *)
(* A name repeats one component n times: a template parameter, a function   *)
(* parameter, a scope, an index... Grow adds one more. Whatever its length, *)
(* a name can be read, and shows every component or, where there is no room *)
(* for its details, none of them. The sizes explored are those around       *)
(* powers of two, where the representations of lengths change.              *)
(*                                                                          *)
(* A nest is a name with n shells around a core: templates, calls, functions *)
(* that take functions... Grow adds one more.                               *)
(*                                                                          *)
(* A session reads "count" names of a form, all different.                  *)
(*                                                                          *)
(* Texts are sequences of pieces <<text, times>>; # stands for the number   *)
(* of the component, or for the number of the name in the session, and % for *)
(* a number sign.                                                           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC, Json
CONSTANTS Span, Starts, Counts, Forms
VARIABLES kind, n, start
vars == <<kind, n, start>>

(* a list: opening, component, separator, closing text; how it is displayed with
   its details; what is displayed at the depths where they are left out *)
K(o, i, s, c, fo, fi, fs, fc, less) == [o |-> o, i |-> i, s |-> s, c |-> c, fo |-> fo, fi |-> fi, fs |-> fs, fc |-> fc, less |-> less]
Kinds == [
  template  |-> K("f<", "1", ", ", ">", "f<", "1", ", ", ">", <<"f<…>">>),
  numbered  |-> K("f<", "#", ",", ">", "f<", "#", ", ", ">", <<"f<…>">>),
  types     |-> K("f<", "T#", ",", ">", "f<", "T#", ", ", ">", <<"f<…>">>),
  params    |-> K("f(", "int", ",", ")", "f(", "int", ", ", ")", <<"f…", "f(…)">>),
  variadic  |-> K("f(", "int, ", "", "...)", "f(", "int, ", "", "...)", <<"f…", "f(…)">>),
  call      |-> K("f<g(", "1", ",", ")>", "f<g(", "1", ", ", ")>", <<"f<…>", "f<g…>", "f<g(…)>">>),
  scopes    |-> K("", "a::", "", "b", "", "a::", "", "b", <<"…::b">>),
  rooted    |-> K("::", "a::", "", "b", "::", "a::", "", "b", <<"…::b">>),
  index     |-> K("f<a", "[1]", "", ">", "f<a", "[1]", "", ">", <<"f<…>", "f<a…>">>),
  member    |-> K("f<a", ".b", "", ">", "f<a", ".b", "", ">", <<"f<…>", "f<a…>">>),
  pointer   |-> K("f<int", "*", "", ">", "f<int", "*", "", ">", <<"f<…>", "f<int…>">>),
  array     |-> K("f<int", "[1]", "", ">", "f<int", "[1]", "", ">", <<"f<…>", "f<int…>">>),
  lambda    |-> K("(lambda at /", "a/", "", "b.h:1:2)", "(lambda at /", "a/", "", "b.h:1:2)", <<>>),
  word      |-> K("a", "b", "", "c", "a", "b", "", "c", <<>>)]

Init == kind \in DOMAIN Kinds /\ start \in Starts /\ n = start
Grow == n < start + Span /\ n' = n + 1 /\ UNCHANGED <<kind, start>>
Spec == Init /\ [][Grow]_vars

Rep(o, i, s, c, k) == <<<<o, 1>>>> \o (IF k = 1 THEN <<>> ELSE <<<<i \o s, k - 1>>>>) \o <<<<i, 1>>>> \o <<<<c, 1>>>>
Source == LET k == Kinds[kind] IN Rep(k.o, k.i, k.s, k.c, n)
Full == LET k == Kinds[kind] IN Rep(k.fo, k.fi, k.fs, k.fc, n)
Levels == LET k == Kinds[kind] IN [i \in 1..Len(k.less) |-> <<<<k.less[i], 1>>>>] \o <<Full>>

Times(t, x) == LET RECURSIVE S(_)
                   S(i) == IF i = 0 THEN 0 ELSE S(i - 1) + (IF t[i][1] = x \/ (kind # "word" /\ t[i][1] = x \o Kinds[kind].fs) THEN t[i][2] ELSE 0)
               IN S(Len(t))
NothingLeftOut == Times(Full, Kinds[kind].fi) = n
Emit == PrintT(ToJson([kind |-> kind, n |-> n', src |-> Source', levels |-> Levels']))

-----------------------------------------------------------------------------
(* Nests: a name with n shells around a core. o and c are what a shell looks like
   in the source (fo and fc when displayed), h and t what surrounds them all. The
   levels of detail reveal one shell after the other: "first" is displayed at the
   depths where no shell is, "less" where one is left out, inside of the others,
   "last" where the core is. *)
N(h, o, core, c, t, fo, fc, first, less, last) == [h |-> h, o |-> o, core |-> core, c |-> c, t |-> t, fo |-> fo, fc |-> fc, first |-> first, less |-> less, last |-> last]
None == << >>
Nests == [
  template  |-> N("", "f<", "int", ">", "", "f<", ">", None, <<"f<…>">>, None),
  within    |-> N("", "f<a, ", "int", ", b>", "", "f<a, ", ", b>", None, <<"f<…>">>, None),
  params    |-> N("f(", "int (", "int", ")", ")", "int(", ")", <<"f…", "f(…)">>, <<"int…", "int(…)">>, None),
  pointers  |-> N("f(", "int (*)(", "int", ")", ")", "int (*)(", ")", <<"f…", "f(…)">>, <<"int…", "int (…)(…)">>, None),
  calls     |-> N("f<", "g(", "1", ")", ">", "g(", ")", <<"f<…>">>, <<"g…", "g(…)">>, None),
  parens    |-> N("f<", "(", "1", ")", ">", "(", ")", <<"f<…>">>, None, None),
  unary     |-> N("f<", "-", "1", "", ">", "-", "", <<"f<…>">>, None, None),
  decltype  |-> N("", "decltype(", "1", ")", "", "decltype(", ")", None, None, None),
  casts     |-> N("f<", "(int)", "1", "", ">", "(int)", "", <<"f<…>">>, None, None),
  index     |-> N("f<", "a[", "1", "]", ">", "a[", "]", <<"f<…>">>, <<"a…">>, None),
  scopes    |-> N("", "f<", "a::b", ">::c", "", "f<", ">::c", None, <<"…::c", "f<…>::c">>, <<"…::b">>),
  sizeof    |-> N("f<", "sizeof(", "a", ")", ">", "sizeof(", ")", <<"f<…>">>, <<"sizeof…", "sizeof(…)">>, None),
  lambda    |-> N("", "{lambda(", "int", ")%1}", "", "{lambda(", ")%1}", None, <<"{lambda(…)%1}">>, None),
  ternary   |-> N("f<", "a?", "1", ":2", ">", "a ? ", " : 2", <<"f<…>">>, <<"a…">>, None),
  sums      |-> N("f<", "(1+", "1", ")", ">", "(1 + ", ")", <<"f<…>">>, <<"(1…)">>, None),
  operator  |-> N("", "operator f<", "int", ">", "", "operator f<", ">", None, <<"operator f<…>">>, None),
  mixed     |-> N("", "f<g(", "1", ")>", "", "f<g(", ")>", None, <<"f<…>", "f<g…>", "f<g(…)>">>, None)]
InitNest == kind \in DOMAIN Nests /\ start \in Starts /\ n = start
SpecNest == InitNest /\ [][Grow]_vars

NestSource == LET k == Nests[kind] IN <<<<k.h, 1>>, <<k.o, n>>, <<k.core, 1>>, <<k.c, n>>, <<k.t, 1>>>>
Inside(x, i) == LET k == Nests[kind] IN <<<<k.h, 1>>, <<k.fo, i>>, <<x, 1>>, <<k.fc, i>>, <<k.t, 1>>>>
NestLevels == LET k == Nests[kind] IN
  [i \in 1..Len(k.first) |-> <<<<k.first[i], 1>>>>]
  \o (IF k.less = None THEN None ELSE [j \in 1..(n * Len(k.less)) |-> LET d == (j - 1) \div Len(k.less) IN Inside(k.less[((j - 1) % Len(k.less)) + 1], d)])
  \o [i \in 1..Len(k.last) |-> Inside(k.last[i], n)]
  \o << Inside(k.core, n) >>
(* each level shows as much as the one before *)
Shells(l) == IF Len(l) = 1 THEN 0 ELSE l[2][2]
NestsGrow == \A i \in 2..Len(NestLevels) : Shells(NestLevels[i]) >= Shells(NestLevels[i - 1])
EmitNest == PrintT(ToJson([kind |-> kind, n |-> n', src |-> NestSource', levels |-> NestLevels']))

(* the deepest ones are only displayed with all of their details *)
EmitDeep == PrintT(ToJson([kind |-> kind, n |-> n', src |-> NestSource', shown |-> Inside(Nests[kind].core, n)']))

-----------------------------------------------------------------------------
(* Sessions: the form of name, and what the name number # reads *)
F(src, shown) == [src |-> src, shown |-> shown]
AllForms == [
  id       |-> F("a#", "a#"),
  template |-> F("f<#>", "f<#>"),
  pair     |-> F("f<#,a#>", "f<#, a#>"),
  call     |-> F("f<g(#,#)>", "f<g(#, #)>"),
  sum      |-> F("f<a+#>", "f<a + #>"),
  params   |-> F("f(a#,b#)", "f(a#, b#)"),
  scopes   |-> F("a#::b#::c", "a#::b#::c"),
  index    |-> F("f<a[#]>", "f<a[#]>"),
  array    |-> F("f<int[#]*>", "f<int[#]*>"),
  lambda   |-> F("(lambda at /d#/f#.h:#:1)", "(lambda at /d#/f#.h:#:1)")]
InitSession == kind \in Forms /\ n = 0 /\ start = 0
ReadMore == n < Cardinality(Counts) /\ n' = n + 1 /\ UNCHANGED <<kind, start>>
SpecSession == InitSession /\ [][ReadMore]_vars
Sorted == SetToSortSeq(Counts, LAMBDA a, b : a < b)
EmitSession == PrintT(ToJson([form |-> kind, count |-> Sorted[n'], src |-> AllForms[kind].src, shown |-> AllForms[kind].shown]))
=============================================================================
