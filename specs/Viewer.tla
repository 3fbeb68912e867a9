------------------------------- MODULE Viewer -------------------------------
(***************************************************************************)
(* The interactive viewer of time traces: what each key does, and what is    *)
(* on the screen after it.                                                  *)
(*                                                                          *)
(* Profiles are stacked: the first one is about the whole trace, the others   *)
(* about an activity that is listed in the profile below. Each one lists the  *)
(* callees of its activity, either the direct ones (hierarchical) or all of    *)
(* them (flat). Dialogs come on top of all this.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC, Json, Durations, Shorten

CONSTANTS Parents,    \* how activities are nested: caller of each one as a number in base 100, or {} for random ones
          NActs, Unit, Widths, Keys, MaxDepth, MaxKeys, Random

VARIABLES acts,    \* the trace: [x (kind and argument), parent, start, dur, self], callers before callees
          cols,    \* width of the terminal
          stack,   \* profiles: [n (activity, or 0), flat, w (terminal width when it was shown), sel (selected activity), def (order a column gets when chosen)]
          key, ord,\* sorted by which column, and in which direction was each column last sorted
          unit,    \* "total", "parent" or "time"
          picking, cursor, \* whether a column is being chosen, and which
          dialog, item,    \* open dialog, and selected button or list item of it
          hist
vars == <<acts, cols, stack, key, ord, unit, picking, cursor, dialog, item, hist>>
view == <<acts, cols, stack, key, ord, unit, picking, cursor, dialog, item>>

(*------------------------------- traces ----------------------------------*)
PathAct(names) == Act("Source", PathOf(names), FoldLeft(LAMBDA acc, n : acc \o "/" \o n, "", names))
Pool == << Act("ExecuteCompiler", NoArg, ""), Act("Frontend", NoArg, ""), PathAct(<<"usr", "include", "stuff.h">>), Act("RunPass", Text("Some Module Analysis Pass"), "Some Module Analysis Pass"),
           PathAct(<<"home", "user", "project", "src", "deep", "deeper", "deepest", "x.cpp">>), Act("Backend", NoArg, ""), Act("ParseClass", Cpp(<<"…::b", "a::b">>), "a::b"),
           PathAct(<<"b", "c", "a-very-long-directory-name", "d.h">>), Act("RunLoopPass", Text("0123456789012345678901234567890123456789"), "0123456789012345678901234567890123456789"),
           Act("InstantiateClass", Cpp(<<"…::c<…>", "a::b::c<…::d>", "a::b::c<e::d>">>), "a::b::c<e::d>"), Act("RunPass", Text("z"), "z"), Act("OptModule", Text("z"), "z"),
           Act("PerformPendingInstantiations", NoArg, ""), PathAct(<<"a">>), Act("InstantiateFunction", Cpp(<<"f<…>", "f<g<…>, h<…>>", "f<g<a, b>, h<i<…>>>", "f<g<a, b>, h<i<j>>>">>), "f<g<a,b>,h<i<j>>>"),
           Act("RunPass", Text("a"), "a"), Act("CodeGenPasses", NoArg, "") >>
Pick(S) == RandomElement(S)
RECURSIVE RandomTree(_)
RandomTree(t) == IF Len(t) = NActs THEN t
                 ELSE RandomTree(Append(t, [x |-> Pick(1..Len(Pool) \ {t[i].x : i \in 1..Len(t)}), extra |-> Pick({0, 0, 1, 2, 3, 5, 8, 13, 21, 100, 999}),
                                            parent |-> IF Len(t) = 0 THEN 0 ELSE Pick({0} \cup {Pick(0..Len(t)), Len(t)})]))
RECURSIVE Digits(_, _)
Digits(p, i) == IF i = 0 THEN <<>> ELSE Append(Digits(p \div 100, i - 1), p % 100)
FixedTree(p) == LET d == Digits(p, NActs) IN [i \in 1..NActs |-> [x |-> i, extra |-> ((i * 7) % 11) + i, parent |-> d[i]]]
(* time before and after each callee is spent in the caller *)
Kids0(t, i) == {j \in 1..Len(t) : t[j].parent = i}
SelfOf(t, i) == t[i].extra + (IF Kids0(t, i) = {} THEN 0 ELSE Cardinality(Kids0(t, i)) + 1)
RECURSIVE DurOf(_, _)
DurOf(t, i) == SelfOf(t, i) + FoldSet(LAMBDA j, acc : acc + DurOf(t, j), 0, Kids0(t, i))
RECURSIVE StartOf(_, _)
StartOf(t, i) == LET before == {j \in Kids0(t, t[i].parent) : j < i}
                 IN (IF t[i].parent = 0 THEN 0 ELSE StartOf(t, t[i].parent)) + 1 + FoldSet(LAMBDA j, acc : acc + 1 + DurOf(t, j), 0, before)
(* columns: total and self duration (each eleven columns wide, plus separators), a mark, description *)
Room(w, flat) == IF flat THEN w - 16 ELSE w - 31
Alphabet == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_`abcdefghijklmnopqrstuvwxyz{|}~…"
Code == TLCEval([c \in {SubSeq(Alphabet, i, i) : i \in 1..Len(Alphabet)} |-> CHOOSE i \in 1..Len(Alphabet) : SubSeq(Alphabet, i, i) = c])
RECURSIVE Cmp(_, _, _)
Cmp(a, b, i) == IF i > Len(b) THEN FALSE ELSE IF i > Len(a) THEN TRUE ELSE IF a[i] = b[i] THEN Cmp(a, b, i + 1) ELSE a[i] < b[i]
Smaller(a, b) == Cmp(a, b, 1)
Codes(text) == [i \in 1..Len(text) |-> Code[text[i]]]
Short_(x, room) == LET d == Described(x, room) IN IF d = <<>> THEN Dots ELSE d
Rooms == {Room(w, flat) : w \in Widths, flat \in BOOLEAN}
MarkCode(t, i, flat) == IF flat THEN <<>> ELSE IF Kids0(t, i) = {} THEN <<1>> ELSE <<12>>   (* where they are in the alphabet *)
(* where each one stands among all of them, going by the description *)
Places(t, w, flat) == LET d == TLCEval([i \in 1..Len(t) |-> MarkCode(t, i, flat) \o Codes(Short_(Pool[t[i].x], Room(w, flat)))])
                      IN TLCEval([i \in 1..Len(t) |-> Cardinality({j \in 1..Len(t) : Smaller(d[j], d[i])})])
Made(t) == LET place == TLCEval([w \in Widths |-> TLCEval([flat \in BOOLEAN |-> Places(t, w, flat)])])
           IN [i \in 1..Len(t) |-> LET short == TLCEval([r \in Rooms |-> Short_(Pool[t[i].x], r)])
               IN [x |-> Pool[t[i].x], parent |-> t[i].parent, start |-> StartOf(t, i), dur |-> DurOf(t, i), self |-> SelfOf(t, i), below |-> Kids0(t, i) # {},
                   width |-> [r \in Rooms |-> W(short[r])], text |-> [r \in Rooms |-> Joint(short[r])], place |-> [w \in Widths |-> [flat \in BOOLEAN |-> place[w][flat][i]]],
                   wtotal |-> WrittenIn(DurOf(t, i), Unit), wself |-> WrittenIn(SelfOf(t, i), Unit), long |-> Joint(Full(Pool[t[i].x]))]]

(*---------------------------- what is listed ------------------------------*)
Acts == 1..Len(acts)
Kids(n) == {i \in Acts : acts[i].parent = n}
RECURSIVE Below(_)
Below(n) == Kids(n) \cup UNION {Below(k) : k \in Kids(n)}
Listed(v) == IF v.flat THEN Below(v.n) ELSE Kids(v.n)
Total == FoldSet(LAMBDA i, acc : acc + acts[i].dur, 0, Kids(0))
Norm(v) == IF unit = "total" \/ v.n = 0 THEN Total ELSE acts[v.n].dur
Text_(i, v) == (IF v.flat THEN "" ELSE IF acts[i].below THEN "+" ELSE " ") \o acts[i].text[Room(v.w, v.flat)]
Name(v, below) == IF v.n = 0 THEN "<profile root>" ELSE acts[v.n].text[Room(below.w, FALSE)]

Columns(v) == IF v.flat THEN <<"self", "desc">> ELSE <<"total", "self", "desc">>
Flattened(k, flat) == IF flat /\ k = "total" THEN "self" ELSE k
KeyOf(v, k) == Flattened(k, v.flat)
(* number of rows that must come before i *)
RankIn(L, i, v, k, o) ==
  LET c == KeyOf(v, k)
      Before(a, b) == CASE c = "total" -> acts[a].dur < acts[b].dur [] c = "self" -> acts[a].self < acts[b].self [] c = "desc" -> acts[a].place[v.w][v.flat] < acts[b].place[v.w][v.flat]
  IN Cardinality({j \in L : IF o[c] = "^" THEN Before(j, i) ELSE Before(i, j)})
Ranks(v, k, o) == LET L == TLCEval(Listed(v)) IN TLCEval([i \in L |-> RankIn(L, i, v, k, o)])

(*--------------------------------- keys -----------------------------------*)
Top == Last(stack)
Default == [total |-> "v", self |-> "v", desc |-> "^"]
(* a new profile starts on its first row, which must be known *)
First(n, flat, w) == LET v == [n |-> n, flat |-> flat, w |-> w] L == TLCEval(Listed(v)) IN TLCEval({i \in L : RankIn(L, i, v, key, ord) = 0})
Shown(n, flat) == [n |-> n, flat |-> flat, w |-> cols, sel |-> CHOOSE i \in First(n, flat, cols) : TRUE, def |-> ord]
CanShow(n, flat) == Cardinality(First(n, flat, cols)) = 1

Cols == Columns(Top)
KeyColumn(v, k) == CHOOSE c \in 1..Len(Columns(v)) : Columns(v)[c] = KeyOf(v, k)
Settle(s, k) == /\ stack' = s /\ picking' = FALSE /\ cursor' = 0
Select(i) == [stack EXCEPT ![Len(stack)].sel = i]
(* rows in order; those of equal rank can be in any order *)
RowsBy(r) == TLCEval(SetToSortSeq(DOMAIN r, LAMBDA a, b : r[a] < r[b] \/ (r[a] = r[b] /\ a < b)))
RowSeq == LET r == Ranks(Top, key, ord) IN RowsBy(r)
Clear == LET r == Ranks(Top, key, ord) IN \A a, b \in DOMAIN r : r[a] = r[b] => a = b
Move(delta) == LET rs == RowSeq
                   p == (CHOOSE p \in 1..Len(rs) : rs[p] = Top.sel) + delta
                   q == IF p < 1 THEN 1 ELSE IF p > Len(rs) THEN Len(rs) ELSE p
               IN Settle(Select(rs[q]), key)

Open == dialog = "none"
Same(vs) == UNCHANGED vs
Up == /\ Open /\ Clear /\ (IF picking THEN Move(0) ELSE Move(-1)) /\ Same(<<acts, cols, key, ord, unit, dialog, item>>)
Down == /\ Open /\ Clear /\ (IF picking THEN Move(0) ELSE Move(1)) /\ Same(<<acts, cols, key, ord, unit, dialog, item>>)
Jump(delta) == /\ Open /\ Clear /\ Move(delta) /\ Same(<<acts, cols, key, ord, unit, dialog, item>>)
SideWays(d) == /\ Open /\ picking' = TRUE /\ Same(<<acts, cols, stack, key, ord, unit, dialog, item>>)
               /\ cursor' = IF ~picking THEN KeyColumn(Top, key) ELSE IF cursor + d \in 1..Len(Cols) THEN cursor + d ELSE cursor
(* choosing a column sorts every profile by it; choosing it again turns the order around *)
Sort == /\ Open /\ picking
        /\ LET c == Cols[cursor]
               o == IF c # KeyOf(Top, key) THEN Top.def[c] ELSE IF ord[c] = "^" THEN "v" ELSE "^"
           IN key' = c /\ ord' = [ord EXCEPT ![c] = o]
        /\ Same(<<acts, cols, stack, unit, picking, cursor, dialog, item>>)
Zoom == /\ Open /\ ~picking
        /\ IF Top.flat \/ Kids(Top.sel) = {} THEN Same(<<stack>>)
           ELSE Len(stack) < MaxDepth /\ CanShow(Top.sel, FALSE) /\ stack' = Append(stack, Shown(Top.sel, FALSE))
        /\ picking' = FALSE /\ cursor' = 0 /\ Same(<<acts, cols, key, ord, unit, dialog, item>>)
Leave == /\ Open
         /\ IF Len(stack) > 1 THEN stack' = Front(stack) /\ picking' = FALSE /\ cursor' = 0 ELSE Same(<<stack, picking, cursor>>)
         /\ Same(<<acts, cols, key, ord, unit, dialog, item>>)
Toggle == /\ Open /\ CanShow(Top.n, ~Top.flat)
          /\ stack' = Append(Front(stack), Shown(Top.n, ~Top.flat)) /\ picking' = FALSE /\ cursor' = 0 /\ Same(<<acts, cols, key, ord, unit, dialog, item>>)
Units == /\ unit' = CASE unit = "total" -> "parent" [] unit = "parent" -> "time" [] unit = "time" -> "total"
         /\ stack' = [i \in 1..Len(stack) |-> [stack[i] EXCEPT !.def.total = IF stack[i].flat THEN @ ELSE ord.total, !.def.self = ord.self]]
         /\ cursor' = (IF picking THEN KeyColumn(Top, key) ELSE 0)
         /\ Same(<<acts, cols, key, ord, picking, dialog, item>>)
Ask(d) == /\ dialog' = IF Open THEN d ELSE dialog
          /\ item' = IF Open THEN 1 ELSE item
          /\ Same(<<acts, cols, stack, key, ord, unit, picking, cursor>>)
DialogMove(k) == /\ ~Open
                 /\ item' = CASE k = "down" /\ dialog = "back" /\ item < Len(stack) -> item + 1
                              [] k = "up" /\ dialog = "back" /\ item > 1 -> item - 1
                              [] k = "right" /\ dialog = "quit" -> 2
                              [] k = "left" /\ dialog = "quit" -> 1
                              [] OTHER -> item
                 /\ (k = "down" => dialog = "back" /\ item < Len(stack)) /\ (k = "up" => dialog = "back" /\ item > 1) /\ (k \in {"left", "right"} => dialog = "quit")
                 /\ Same(<<acts, cols, stack, key, ord, unit, picking, cursor, dialog>>)
(* a random run only ends in its second half *)
DialogEnter == /\ ~Open /\ (Random /\ dialog = "quit" /\ item = 1 => Len(hist) > MaxKeys \div 2)
               /\ dialog' = IF dialog = "quit" /\ item = 1 THEN "ended" ELSE "none"
               /\ item' = 0
               /\ IF dialog = "back" /\ item # 1
                  THEN (* the newest profile comes first *)
                       stack' = SubSeq(stack, 1, Len(stack) + 1 - item) /\ picking' = FALSE /\ cursor' = 0
                  ELSE Same(<<stack, picking, cursor>>)
               /\ Same(<<acts, cols, key, ord, unit>>)
DialogLeave == /\ ~Open /\ dialog' = "none" /\ item' = 0 /\ Same(<<acts, cols, stack, key, ord, unit, picking, cursor>>)
Resize == \E w \in (IF Random THEN {Pick(Widths)} ELSE Widths) : w # cols /\ cols' = w /\ Same(<<acts, stack, key, ord, unit, picking, cursor, dialog, item>>)

Key(k) == CASE k = "up" -> Up \/ DialogMove(k) [] k = "down" -> Down \/ DialogMove(k) [] k = "left" -> SideWays(-1) \/ DialogMove(k) [] k = "right" -> SideWays(1) \/ DialogMove(k)
            [] k = "home" -> Jump(-1000) [] k = "end" -> Jump(1000) [] k = "pageup" -> Jump(-10) [] k = "pagedown" -> Jump(10)
            [] k = "enter" -> Sort \/ Zoom \/ DialogEnter [] k = "esc" -> Leave \/ DialogLeave
            [] k = "f" -> Toggle [] k = "u" -> Units
            [] k = "h" -> Ask("help") [] k = "q" -> Ask("quit") [] k = "ctrl-c" -> Ask("quit") [] k = "b" -> Ask("back") [] k = "resize" -> Resize

FirstOf(as) == LET R == {i \in 1..Len(as) : as[i].parent = 0} F == {i \in R : \A j \in R : as[j].dur <= as[i].dur} IN IF Cardinality(F) = 1 THEN CHOOSE i \in F : TRUE ELSE 0
Fresh == /\ key = "total" /\ ord = Default /\ unit = "total" /\ picking = FALSE /\ cursor = 0 /\ dialog = "none" /\ item = 0 /\ hist = <<>>
FirstView(i, w) == [n |-> 0, flat |-> FALSE, w |-> w, sel |-> i, def |-> Default]
Init == /\ Fresh
        /\ IF Random THEN acts = <<>> /\ cols = 0 /\ stack = <<>>
           ELSE /\ acts = Made(FixedTree(CHOOSE p \in Parents : TRUE)) /\ cols \in Widths
                /\ FirstOf(acts) # 0 /\ stack = <<FirstView(FirstOf(acts), cols)>>
(* random traces and widths, one per run *)
Begin == /\ Random /\ stack = <<>>
         /\ \E t \in {RandomTree(<<>>)}, w \in {Pick(Widths)} : LET a == TLCEval(Made(t)) IN
               /\ FirstOf(a) # 0 /\ acts' = a /\ cols' = w /\ stack' = <<FirstView(FirstOf(a), w)>>
         /\ UNCHANGED <<key, ord, unit, picking, cursor, dialog, item, hist>>

(*------------------------------ the screen --------------------------------*)
Back == [i \in 1..Len(stack) |-> LET j == Len(stack) + 1 - i IN Name(stack[j], IF j = 1 THEN stack[1] ELSE stack[j - 1])]
Screen == TLCEval([dialog |-> dialog, item |-> item, back |-> IF dialog = "back" THEN Back ELSE <<>>, flat |-> Top.flat, unit |-> unit, cols |-> cols, w |-> Top.w,
           key |-> KeyColumn(Top, key), dir |-> ord[KeyOf(Top, key)], picking |-> picking, cursor |-> cursor, norm |-> Norm(Top),
           rows |-> LET r == Ranks(Top, key, ord) rs == RowsBy(r) IN [p \in 1..Len(rs) |-> LET i == rs[p] IN [id |-> i, rank |-> r[i], desc |-> Text_(i, Top), total |-> acts[i].dur, self |-> acts[i].self,
                      wtotal |-> acts[i].wtotal, wself |-> acts[i].wself]],
           sel |-> Top.sel, long |-> acts[Top.sel].long, clear |-> Clear])
(* some keys are pressed more often than others *)
Often == <<"enter", "enter", "enter", "down", "down", "down", "down", "up", "esc", "f", "f", "right", "b", "u">>
Pressed(h) == IF ~Random THEN Keys ELSE IF Pick(1..2) = 1 THEN {Often[Pick(1..Len(Often))]} ELSE {Pick(Keys)}
Plain(o) == <<o.total, o.self, o.desc>>
State == ToString(<<cols, [i \in 1..Len(stack) |-> <<stack[i].n, stack[i].flat, stack[i].w, stack[i].sel, Plain(stack[i].def)>>], key, Plain(ord), unit, picking, cursor, dialog, item>>)
Next == /\ stack # <<>> /\ dialog # "ended" /\ (Random => Len(hist) < MaxKeys)
        /\ \E k \in Pressed(hist) :
             /\ Key(k)
             /\ hist' = IF Random THEN Append(hist, [screen |-> Screen, key |-> IF k = "resize" THEN ToString(cols') ELSE k]) ELSE <<>>
             /\ Random \/ PrintT(ToJson([from |-> State, to |-> State', key |-> IF k = "resize" THEN ToString(cols') ELSE k]))
(* in a simulation there must always be something to do *)
Rest == Random /\ UNCHANGED vars
Spec == Init /\ [][Begin \/ Next \/ Rest]_vars

-----------------------------------------------------------------------------
(* each profile is about an activity listed in the one below, which is what one goes back to *)
OneStack == stack # <<>> => /\ stack[1].n = 0 /\ \A i \in 2..Len(stack) : stack[i].n \in Listed(stack[i - 1]) /\ stack[i].n = stack[i - 1].sel /\ ~stack[i - 1].flat
SelectedIsListed == \A i \in 1..Len(stack) : stack[i].sel \in Listed(stack[i])
NothingEmpty == \A i \in 1..Len(stack) : Listed(stack[i]) # {}
FitsInTerminal == stack = <<>> \/ \A i \in Listed(Top) : acts[i].width[Room(Top.w, Top.flat)] <= Room(Top.w, Top.flat)
SelfAddsUp == stack = <<>> \/ FoldSet(LAMBDA i, acc : acc + acts[i].self, 0, Acts) = Total
EachOnce == stack = <<>> \/ ~Top.flat \/ Top.n # 0 \/ Listed(Top) = Acts
LeavingUndoesZooming == [][(Len(stack') = Len(stack) + 1 /\ stack # <<>>) => Front(stack') = stack]_<<stack>>
DialogsLeaveTheRest == [][dialog' # dialog /\ dialog' # "none" => stack' = stack /\ unit' = unit /\ key' = key]_view
EmitScreen == Random \/ PrintT(ToJson([at |-> State, screen |-> Screen, acts |-> IF TLCGet("level") = 1 THEN acts ELSE <<>>]))
EmitRun == (Random /\ hist' # hist /\ (Len(hist') = MaxKeys \/ dialog' = "ended")) => PrintT(ToJson([acts |-> acts, hist |-> hist', unit |-> Unit]))
=============================================================================
