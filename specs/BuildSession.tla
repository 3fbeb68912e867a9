---------------------------- MODULE BuildSession ----------------------------
(***************************************************************************)
(* A session in a build directory: is there a build profile and is it any     *)
(* good, measuring one, the table of compilation units, and from there to the *)
(* time-trace of a unit (which may need to be measured as well) and back.      *)
(*                                                                          *)
(* Files are only replaced by complete new ones: a measurement that fails or   *)
(* is aborted leaves everything as it was.                                    *)
(***************************************************************************)
EXTENDS Viewer, Randomization

CONSTANTS NUnits, NTraces, Setups, Profs, TraceStates, Kinds, Timed, Manual, Env,
          TableKeys, TraceKeys   \* keys that are pressed while a table of units, or a trace, is shown

VARIABLES phase,    \* what is shown: "problem", "ask", "build" (measuring), "error", "table", "wizard" (asking), "measure", "info", "opening", "trace", "ended"
          units,    \* compilation units: [p (which path), kind, rss, time]
          traces,   \* what time-traces there are in the world
          tr,       \* trace file of each unit: [st (age), v (which trace; 0: none that can be read, -1: an empty one)]
          prof,     \* age of the build profile, or "none"
          made,     \* the profile was measured in this session
          setup,    \* what is wrong with the environment, if anything
          man,      \* the profile was named on the command line
          bsel, bkey, bord, bpick, bcur,   \* the table of units: selected one, sort column and orders, column being picked
          psel,     \* selected answer
          run,      \* unit being measured
          why       \* what the open info is about
bvars == <<phase, units, traces, tr, prof, made, setup, man, bsel, bkey, bord, bpick, bcur, psel, run, why>>
allvars == <<vars, bvars>>

(*--------------------------------- units ----------------------------------*)
Paths == << <<"..", "src", "main.cpp">>, <<"..", "src", "deep", "deeper", "deepest", "thing.cpp">>, <<"gen", "moc_a.cpp">>, <<"..", "src-common", "b.cpp">>, <<"..", "src", "a-file-with-a-rather-long-name.cpp">>, <<"c.cpp">>,
            <<"..", "a-very-long-directory-name-really", "x.cpp">>, <<"..", "src", "common", "b.cpp">>, <<"..", "src", "main.cxx">>,
            <<"..", "a b", "c,d.cpp">>, <<"..", "..", "elsewhere", "with \"quotes\"", "x.cpp">>, <<"d e.cpp">>, <<"..", "src", "..hidden", "x.cpp">> >>
NamesOf(u) == [i \in 1..Len(Paths[u.p]) |-> Chars(Paths[u.p][i])]
PathCodes == TLCEval([p \in 1..Len(Paths) |-> [i \in 1..Len(Paths[p]) |-> Codes(Chars(Paths[p][i]))]])
(* paths are compared name by name *)
RECURSIVE LessFrom(_, _, _)
LessFrom(a, b, i) == IF i > Len(b) THEN FALSE ELSE IF i > Len(a) THEN TRUE ELSE IF a[i] = b[i] THEN LessFrom(a, b, i + 1) ELSE Smaller(a[i], b[i])
PathLess == TLCEval([p \in 1..Len(Paths) |-> [q \in 1..Len(Paths) |-> LessFrom(PathCodes[p], PathCodes[q], 1)]])
GB(h) == ToString(h \div 100) \o "." \o (IF h % 100 < 10 THEN "0" ELSE "") \o ToString(h % 100) \o " GB"
Secs(t) == ToString(t \div 10) \o "." \o ToString(t % 10) \o "s"
HasTime == Timed /\ ~made /\ units # <<>>   \* this program never measures times
FileRoom == LET w == cols - 15 - (IF HasTime THEN 11 ELSE 0) IN IF w < 1 THEN 1 ELSE w
UnitsHere == 1..Len(units)
InDb(i) == units[i].kind \in {"plain", "nooutput"}
Nothing == \A i \in UnitsHere : ~InDb(i)   \* there is nothing to compile
(* a new profile is about the units of the compilation database *)
Rows == {i \in UnitsHere : ~made \/ InDb(i)}
BCols == IF HasTime THEN <<"rss", "time", "file">> ELSE <<"rss", "file">>
BDefault == [rss |-> "v", time |-> "v", file |-> "^"]
BBefore(a, b, c) == CASE c = "rss" -> units[a].rss < units[b].rss [] c = "time" -> units[a].time < units[b].time [] c = "file" -> PathLess[units[a].p][units[b].p]
BRanks(c, o) == TLCEval([i \in Rows |-> Cardinality({j \in Rows : IF o = "^" THEN BBefore(j, i, c) ELSE BBefore(i, j, c)})])
BRows == RowsBy(BRanks(bkey, bord[bkey]))
BClear == LET r == BRanks(bkey, bord[bkey]) IN \A a, b \in Rows : r[a] = r[b] => a = b

(*------------------------------- questions --------------------------------*)
Ages == [m5 |-> "5min", m59 |-> "59min", h1 |-> "1h", h23 |-> "23h", d1 |-> "1 day", d2 |-> "2 days", d30 |-> "30 days", future |-> "", fresh |-> "", stale |-> "", none |-> ""]
Question(st, manual) == CASE st = "none" -> "It looks like this build has not been profiled yet. Ready to do so?"
                          [] st = "stale" -> "There is an existing build profile, but it is not up to date with respect to current source code. Use it anyway?"
                          [] st = "fresh" \/ manual -> ""
                          [] st = "future" -> "There is an existing build profile. Do you consider it up to date?"   \* clocks may disagree
                          [] OTHER -> "There is an existing build profile from " \o Ages[st] \o " ago. Do you consider it up to date?"
Answers(st) == IF st = "none" THEN <<"<Yes>", "<No>">> ELSE <<"<Reuse>", "<Measure>">>
Creates(st, sel) == (st = "none") = (sel = 1)
Problems == [nodb |-> "No compilation database found", baddb |-> "Failed to parse compilation database", noclang |-> "could not find clang++", oldclang |-> "clang++ is too old (need at least v9 for time-trace, got v8)",
             oddclang |-> "unexpected output", silentclang |-> "returned empty output", failclang |-> "failing status", nosource |-> "Failed to check build profile freshness", badprof |-> "Failed to parse performance profile", fine |-> ""]

(*--------------------------------- start ----------------------------------*)
RandomUnits(n) == TLCEval(LET ps == SetToSeq(RandomSubset(NUnits, 1..Len(Paths))) IN [i \in 1..NUnits |-> [p |-> ps[i], kind |-> IF i > 1 /\ Pick(1..3) = 1 THEN Pick(Kinds) ELSE "plain", rss |-> 1 + Pick(0..3) + Pick({0, 10, 100, 1234}), time |-> Pick(0..3) + Pick({0, 10, 600})]])
FixedUnits == [i \in 1..NUnits |-> [p |-> i, kind |-> IF Cardinality(Kinds) = 1 THEN CHOOSE k \in Kinds : TRUE ELSE <<"plain", "gone", "unlisted", "nooutput">>[((i - 1) % 4) + 1], rss |-> 1 + ((i * 37) % 100), time |-> (i * 53) % 100]]
TrOf(st, v) == [st |-> st, v |-> v]
RandomTr(u) == LET st == Pick(TraceStates) IN TrOf(st, Pick(-1..NTraces))
(* a missing source file only matters when there is a profile that could be older *)
Possible(s, pr) == (s = "badprof" => pr # "none") /\ (s = "nosource" => pr \notin {"none", "stale"})
(* where a session goes from its start *)
Start(s, pr, m) == IF s \notin {"fine", "badprof"} THEN "problem" ELSE IF Question(pr, m) # "" THEN "ask" ELSE IF s = "badprof" THEN "problem" ELSE "table"
FirstUnit(us) == LET F == {i \in 1..Len(us) : \A j \in 1..Len(us) : us[j].rss <= us[i].rss} IN IF Cardinality(F) = 1 THEN CHOOSE i \in F : TRUE ELSE 0
BInit == /\ Fresh /\ acts = <<>> /\ stack = <<>>
         /\ made = FALSE /\ bkey = "rss" /\ bord = BDefault /\ bpick = FALSE /\ bcur = 0 /\ psel = 1 /\ run = 0 /\ why = ""
         /\ IF Random THEN phase = "" /\ units = <<>> /\ traces = <<>> /\ setup = "" /\ prof = "" /\ man = FALSE /\ tr = <<>> /\ bsel = 0 /\ cols = 0
            ELSE /\ units = FixedUnits /\ traces = TLCEval([i \in 1..NTraces |-> Made(FixedTree(CHOOSE p \in Parents : TRUE))])
                 /\ setup \in Setups /\ prof \in Profs /\ man \in Manual /\ tr \in [1..NUnits -> {TrOf(st, IF NTraces = 0 THEN 0 ELSE 1) : st \in TraceStates}] /\ cols \in Widths
                 /\ Possible(setup, prof)
                 /\ phase = Start(setup, prof, man) /\ (FirstUnit(units) # 0 \/ units = <<>>) /\ bsel = FirstUnit(units)
BBegin == /\ Random /\ phase = ""
          /\ \E us \in {RandomUnits(0)}, ts \in {TLCEval([i \in 1..NTraces |-> Made(RandomTree(<<>>))])}, s \in {Pick(Setups)}, pr \in {Pick(Profs)}, m \in {Pick(Manual)}, w \in {Pick(Widths)}, t \in {TLCEval([i \in 1..NUnits |-> RandomTr(i + Len(hist))])} :
               /\ Possible(s, pr) /\ (FirstUnit(us) # 0 \/ us = <<>>)
               /\ units' = us /\ traces' = ts /\ setup' = s /\ prof' = pr /\ man' = m /\ cols' = w /\ tr' = t /\ bsel' = FirstUnit(us) /\ phase' = Start(s, pr, m)
          /\ UNCHANGED <<acts, stack, key, ord, unit, picking, cursor, dialog, item, hist, made, bkey, bord, bpick, bcur, psel, run, why>>

(*------------------------------ what happens ------------------------------*)
viewer == <<acts, cols, stack, key, ord, unit, picking, cursor>>
table == <<bsel, bkey, bord, bpick, bcur>>
world == <<units, traces, setup, man>>
Quiet == <<viewer, table, world>>
InTable == phase \in {"table", "wizard", "measure", "info"}
Goes(p) == /\ phase' = p /\ dialog' = "none" /\ item' = 0
Stay == UNCHANGED <<phase, dialog, item>>
(* showing the trace of a unit: it has to be read first *)
Opens(u, v) == IF v <= 0 THEN Goes("info") /\ why' = (IF v = 0 THEN "unreadable" ELSE "empty") /\ UNCHANGED viewer
               ELSE Goes("opening") /\ why' = "" /\ acts' = traces[v] /\ unit' = "total" /\ picking' = FALSE /\ cursor' = 0 /\ UNCHANGED <<cols, stack, key, ord>>

Dialogs(k) ==
  CASE k \in {"q", "ctrl-c"} -> dialog' = "quit" /\ item' = 1
    [] k = "h" -> IF InTable THEN dialog' = "help" /\ item' = 1 ELSE UNCHANGED <<dialog, item>>
    [] OTHER -> UNCHANGED <<dialog, item>>
InDialog(k) ==
  /\ CASE k = "enter" /\ dialog = "quit" /\ item = 1 -> (Random => Len(hist) > MaxKeys \div 2 \/ "!start" \in Env) /\ phase' = "ended" /\ dialog' = "ended" /\ item' = 0
       [] k = "enter" -> Goes(phase)
       [] k = "esc" -> IF phase \in {"build", "measure"} THEN Stay ELSE Goes(phase)
       [] k = "right" -> dialog = "quit" /\ item' = 2 /\ UNCHANGED <<phase, dialog>>
       [] k = "left" -> dialog = "quit" /\ item' = 1 /\ UNCHANGED <<phase, dialog>>
       [] k \in {"q", "ctrl-c", "h", "b", "u", "f"} -> Stay
       [] OTHER -> FALSE
  /\ run' = (IF phase' = "ended" THEN 0 ELSE run) /\ UNCHANGED <<Quiet, tr, prof, made, psel, why>>

BMove(d) == IF Rows = {} THEN bpick' = FALSE /\ bcur' = 0 /\ UNCHANGED <<bsel, bkey, bord>> ELSE
            LET rs == BRows
                p == (CHOOSE p \in 1..Len(rs) : rs[p] = bsel) + d
                q == IF p < 1 THEN 1 ELSE IF p > Len(rs) THEN Len(rs) ELSE p
            IN /\ BClear /\ bsel' = (IF bpick /\ d \in {-1, 1} THEN bsel ELSE rs[q]) /\ bpick' = FALSE /\ bcur' = 0 /\ UNCHANGED <<bkey, bord>>
ColumnOf(c) == CHOOSE i \in 1..Len(BCols) : BCols[i] = c
(* a unit of which nothing can be said *)
Trouble(u) == CASE units[u].kind = "gone" -> "Failed to resolve relative path" [] units[u].kind = "unlisted" -> "No compilation database entry for source file"
                [] units[u].kind = "nooutput" -> "Failed to extract output file from compilation command" [] OTHER -> ""
InTheTable(k) ==
  CASE k \in {"up", "down", "home", "end"} -> /\ BMove(CASE k = "up" -> -1 [] k = "down" -> 1 [] k = "home" -> -1000 [] k = "end" -> 1000)
                                              /\ Stay /\ UNCHANGED <<viewer, world, tr, prof, made, psel, run, why>>
    [] k \in {"left", "right"} -> /\ bpick' = TRUE /\ bcur' = (IF ~bpick THEN ColumnOf(bkey) ELSE LET c == bcur + (IF k = "left" THEN -1 ELSE 1) IN IF c \in 1..Len(BCols) THEN c ELSE bcur)
                                  /\ Stay /\ UNCHANGED <<bsel, bkey, bord, viewer, world, tr, prof, made, psel, run, why>>
    [] k = "enter" /\ bpick -> /\ LET c == BCols[bcur] o == IF c # bkey THEN BDefault[c] ELSE IF bord[c] = "^" THEN "v" ELSE "^" IN bkey' = c /\ bord' = [bord EXCEPT ![c] = o]
                               /\ Stay /\ UNCHANGED <<bsel, bpick, bcur, viewer, world, tr, prof, made, psel, run, why>>
    [] k = "enter" /\ bsel = 0 -> Stay /\ UNCHANGED <<Quiet, tr, prof, made, psel, run, why>>
    [] k = "enter" -> /\ bpick' = FALSE /\ bcur' = 0 /\ UNCHANGED <<bsel, bkey, bord, world, tr, prof, made>>
                      /\ IF Trouble(bsel) # "" THEN Goes("info") /\ why' = Trouble(bsel) /\ UNCHANGED <<viewer, psel, run>>
                         ELSE IF Question(tr[bsel].st, FALSE) # "" THEN Goes("wizard") /\ psel' = 1 /\ UNCHANGED <<viewer, run, why>>
                         ELSE Opens(bsel, tr[bsel].v) /\ UNCHANGED <<psel, run>>
    [] k \in {"esc", "b", "u", "f"} -> Stay /\ UNCHANGED <<Quiet, tr, prof, made, psel, run, why>>
    [] OTHER -> FALSE
(* the table of a profile that has just been loaded; what was measured by the session itself is not known *)
NewTable(new) == /\ bkey' = "rss" /\ bord' = BDefault /\ bpick' = FALSE /\ bcur' = 0
                 /\ bsel' = (IF new THEN IF Nothing THEN 0 ELSE CHOOSE i \in UnitsHere : InDb(i) ELSE FirstUnit(units))
InAsk(k) ==
  CASE k \in {"left", "right"} -> psel' = (IF k = "left" THEN 1 ELSE 2) /\ Stay /\ UNCHANGED <<Quiet, tr, prof, made, run, why>>
    [] k = "enter" /\ Creates(prof, psel) /\ Nothing ->   \* done at once
                      Goes("table") /\ prof' = "fresh" /\ made' = TRUE /\ NewTable(TRUE) /\ UNCHANGED <<viewer, world, tr, psel, run, why>>
    [] k = "enter" -> /\ IF Creates(prof, psel) THEN Goes("build") ELSE IF prof = "none" THEN phase' = "ended" /\ dialog' = "ended" /\ item' = 0 ELSE Goes(IF setup = "badprof" THEN "problem" ELSE "table")
                      /\ UNCHANGED <<Quiet, tr, prof, made, psel, run, why>>
    [] k \in {"esc", "b", "u", "f"} -> Stay /\ UNCHANGED <<Quiet, tr, prof, made, psel, run, why>>
    [] OTHER -> FALSE
InWizard(k) ==
  CASE k \in {"left", "right"} -> psel' = (IF k = "left" THEN 1 ELSE 2) /\ Stay /\ UNCHANGED <<Quiet, tr, prof, made, run, why>>
    [] k = "esc" -> Goes("table") /\ UNCHANGED <<Quiet, tr, prof, made, psel, run, why>>
    [] k = "enter" -> /\ UNCHANGED <<table, world, tr, prof, made, psel>>
                      /\ IF Creates(tr[bsel].st, psel) THEN Goes("measure") /\ run' = bsel /\ UNCHANGED <<viewer, why>>
                         ELSE IF tr[bsel].st = "none" THEN Goes("table") /\ UNCHANGED <<viewer, run, why>>
                         ELSE Opens(bsel, tr[bsel].v) /\ UNCHANGED run
    [] k \in {"b", "u", "f"} -> Stay /\ UNCHANGED <<Quiet, tr, prof, made, psel, run, why>>
    [] OTHER -> FALSE
Waiting(k) ==   \* only aborting is possible; then all is as before
  CASE k = "enter" -> /\ IF phase = "build" THEN phase' = "ended" /\ dialog' = "ended" /\ item' = 0 ELSE Goes("table")
                      /\ run' = 0 /\ UNCHANGED <<Quiet, tr, prof, made, psel, why>>
    [] k \in {"esc", "b", "u", "f"} -> Stay /\ UNCHANGED <<Quiet, tr, prof, made, psel, run, why>>
    [] OTHER -> FALSE
InInfo(k) ==
  CASE k \in {"enter", "esc"} -> Goes("table") /\ why' = "" /\ UNCHANGED <<Quiet, tr, prof, made, psel, run>>
    [] k \in {"b", "u", "f"} -> Stay /\ UNCHANGED <<Quiet, tr, prof, made, psel, run, why>>
    [] OTHER -> FALSE
Final(k) ==
  CASE k = "enter" -> phase' = "ended" /\ dialog' = "ended" /\ item' = 0 /\ UNCHANGED <<Quiet, tr, prof, made, psel, run, why>>
    [] k \in {"esc", "b", "u", "f"} -> Stay /\ UNCHANGED <<Quiet, tr, prof, made, psel, run, why>>
    [] OTHER -> FALSE

(* compilers end, one way or the other *)
World(k) ==
  CASE k = "!build ok" -> phase = "build" /\ Goes("table") /\ prof' = "fresh" /\ made' = TRUE /\ run' = 0 /\ NewTable(TRUE) /\ UNCHANGED <<viewer, world, tr, psel, why>>
    [] k = "!build fail" -> phase = "build" /\ Goes("error") /\ run' = 0 /\ UNCHANGED <<Quiet, tr, prof, made, psel, why>>
    [] k = "!build one" -> phase = "build" /\ Cardinality({i \in UnitsHere : InDb(i)}) > 1 /\ Stay /\ run = 0 /\ run' = 1 /\ UNCHANGED <<Quiet, tr, prof, made, psel, why>>
    [] k = "!trace fail" -> phase = "measure" /\ Goes("info") /\ why' = "clang time-trace run failed" /\ run' = 0 /\ UNCHANGED <<Quiet, tr, prof, made, psel>>
    [] k = "!trace none" -> phase = "measure" /\ run > 0 /\ Goes("info") /\ why' = "Clang did not produce a time-trace" /\ run' = 0 /\ UNCHANGED <<Quiet, tr, prof, made, psel>>
    [] k = "!touch" -> (* the source file of the selected unit is modified *)
                       /\ phase \in {"table", "info"} /\ bsel # 0 /\ units[bsel].kind # "gone" /\ tr[bsel].st \notin {"none", "stale", "fresh", "future"}
                       /\ tr' = [tr EXCEPT ![bsel].st = "stale"] /\ prof' = (IF InDb(bsel) /\ prof \notin {"fresh", "future"} THEN "stale" ELSE prof)
                       /\ Stay /\ UNCHANGED <<Quiet, made, psel, run, why>>
    [] k = "!start" -> (* another session *)
                       /\ phase = "ended" /\ phase' = Start(setup, prof, man) /\ dialog' = "none" /\ item' = 0 /\ why' = "" /\ psel' = 1 /\ run' = 0
                       /\ NewTable(made) /\ key' = "total" /\ ord' = Default /\ unit' = "total" /\ picking' = FALSE /\ cursor' = 0 /\ stack' = <<>> /\ acts' = <<>>
                       /\ UNCHANGED <<cols, world, tr, prof, made>>
    [] k = "!trace part" -> phase = "measure" /\ run > 0 /\ Stay /\ run' = -run /\ UNCHANGED <<Quiet, tr, prof, made, psel, why>>
    [] OTHER -> FALSE
TraceDone(v) == /\ phase = "measure" /\ tr' = [tr EXCEPT ![bsel] = TrOf("fresh", v)] /\ run' = 0 /\ Opens(bsel, v) /\ UNCHANGED <<table, world, prof, made, psel>>

(* the trace is on the screen *)
Read == /\ phase = "opening" /\ phase' = "trace"
        /\ CanShow(0, FALSE) /\ stack' = <<Shown(0, FALSE)>>
        /\ UNCHANGED <<acts, cols, key, ord, unit, picking, cursor, dialog, item, table, world, tr, prof, made, psel, run, why>>
InTrace(k) ==
  IF k = "esc" /\ dialog = "none" /\ Len(stack) = 1
  THEN /\ Goes("table") /\ stack' = <<>> /\ acts' = <<>> /\ picking' = FALSE /\ cursor' = 0 /\ unit' = "total"
       /\ UNCHANGED <<cols, key, ord, table, world, tr, prof, made, psel, run, why>>
  ELSE /\ Key(k) /\ phase' = (IF dialog' = "ended" THEN "ended" ELSE phase)
       /\ UNCHANGED <<table, world, tr, prof, made, psel, run, why>>

BKey(k) ==
  IF phase = "ended" THEN FALSE
  ELSE IF phase = "trace" THEN k \in TraceKeys /\ InTrace(k)
  ELSE IF phase = "opening" THEN FALSE
  ELSE IF dialog # "none" THEN InDialog(k)
  ELSE IF k \in {"q", "ctrl-c", "h"} THEN Dialogs(k) /\ UNCHANGED <<phase, Quiet, tr, prof, made, psel, run, why>>
  ELSE CASE phase = "table" -> k \in TableKeys /\ (made => k \in {"esc", "b", "u", "f"} \/ Cardinality(Rows) <= 1) /\ InTheTable(k)
         [] phase = "ask" -> InAsk(k) [] phase = "wizard" -> InWizard(k) [] phase \in {"build", "measure"} -> Waiting(k) [] phase = "info" -> InInfo(k) [] phase \in {"problem", "error"} -> Final(k)

(*------------------------------- the screen -------------------------------*)
Table == TLCEval(LET r == BRanks(bkey, bord[bkey]) rs == RowsBy(r) IN
         [rows |-> [p \in 1..Len(rs) |-> LET i == rs[p] IN [id |-> i, rank |-> r[i], cells |-> <<GB(units[i].rss)>> \o (IF HasTime THEN <<Secs(units[i].time)>> ELSE <<>>) \o <<Joint(ShortOf(NamesOf(units[i]), FileRoom))>>]],
          timed |-> HasTime, key |-> ColumnOf(bkey), dir |-> bord[bkey], picking |-> bpick, cursor |-> bcur, sel |-> bsel, made |-> made])
Asked == CASE phase = "ask" -> [text |-> Question(prof, man), answers |-> Answers(prof), sel |-> psel] [] phase = "wizard" -> [text |-> Question(tr[bsel].st, FALSE), answers |-> Answers(tr[bsel].st), sel |-> psel] [] OTHER -> [text |-> "", answers |-> <<>>, sel |-> 0]
BScreen == TLCEval([phase |-> phase, dialog |-> dialog, item |-> item, cols |-> cols, ask |-> Asked, why |-> IF phase = "problem" THEN Problems[setup] ELSE why, run |-> IF run < 0 THEN -run ELSE run, prof |-> prof, made |-> made,
                    tr |-> tr, unitkinds |-> [i \in UnitsHere |-> units[i].kind],
                    table |-> IF InTable THEN <<Table>> ELSE <<>>, view |-> IF phase = "trace" THEN <<Screen>> ELSE <<>>])
Setup == [units |-> [i \in UnitsHere |-> [path |-> Paths[units[i].p], kind |-> units[i].kind, rss |-> units[i].rss, time |-> units[i].time]], traces |-> traces, tr |-> tr, prof |-> prof, setup |-> setup, man |-> man, cols |-> cols, timed |-> Timed, unit |-> Unit]
BState == ToString(<<State, phase, [i \in UnitsHere |-> <<tr[i].st, tr[i].v>>], prof, made, setup, man, bsel, bkey, <<bord.rss, bord.time, bord.file>>, bpick, bcur, psel, run, why>>)

Step(k, label) == /\ hist' = IF Random THEN Append(hist, [screen |-> BScreen, key |-> label]) ELSE <<>>
                  /\ Random \/ PrintT(ToJson([from |-> BState, to |-> BState', key |-> label]))
BOften == <<"enter", "enter", "enter", "enter", "down", "right", "esc", "left", "end">>
Eager(k) == IF Pick(1..8) = 1 THEN {"esc"} ELSE IF Pick(1..6) = 1 THEN {"enter"} ELSE {k}
BPressed(h) == IF phase \in {"wizard", "ask"} /\ dialog = "none" /\ Random /\ Pick(1..3) > 1 THEN Eager(IF Creates(IF phase = "ask" THEN prof ELSE tr[bsel].st, psel) THEN "enter" ELSE "right") ELSE IF ~Random THEN Keys ELSE IF Pick(1..3) > 1 THEN {BOften[Pick(1..Len(BOften))]} ELSE {Pick(Keys)}
BNext == /\ phase # "" /\ (phase = "ended" => "!start" \in Env) /\ (Random => Len(hist) < MaxKeys)
         /\ \/ \E k \in BPressed(hist) : BKey(k) /\ Step(k, k)
            \/ \E k \in Env : World(k) /\ Step(k, k)
            \/ "!trace ok" \in Env /\ \E v \in (IF Random THEN {Pick(-1..NTraces)} ELSE {IF NTraces = 0 THEN 0 ELSE 1}) : TraceDone(v) /\ Step("!trace ok", "!trace ok " \o ToString(v))
            \/ Read /\ Step("", "")
BRest == Random /\ UNCHANGED allvars
BSpec == BInit /\ [][BBegin \/ BNext \/ BRest]_allvars

-----------------------------------------------------------------------------
bview == <<view, bvars>>
(* files only change when something was measured successfully *)
OnlyMeasuringChangesFiles == [][phase # "" => /\ (tr' # tr => ((phase = "measure" /\ tr'[bsel].st = "fresh") \/ tr' = [tr EXCEPT ![bsel].st = "stale"]) /\ \A i \in UnitsHere : i # bsel => tr'[i] = tr[i])
                                /\ (prof' # prof => (phase \in {"build", "ask"} /\ prof' = "fresh" /\ made') \/ (tr' # tr /\ prof' = "stale"))]_bvars
(* nothing is measured without having been asked for *)
NothingUnasked == [][phase' \in {"build", "measure"} /\ phase' # phase => phase \in {"ask", "wizard"}]_bvars
ProfileInTable == InTable => prof # "none"
TraceIsOfUnit == phase = "trace" => acts = traces[tr[bsel].v]
BackToSameRow == [][phase = "trace" /\ phase' = "table" => bsel' = bsel]_bvars
OneStackB == phase = "trace" => OneStack
SelectedIsListedB == phase = "trace" => SelectedIsListed
EmitBScreen == Random \/ PrintT(ToJson([at |-> BState, screen |-> BScreen, setup |-> IF TLCGet("level") = 1 THEN <<Setup>> ELSE <<>>]))
EmitBRun == (Random /\ hist' # hist /\ (Len(hist') = MaxKeys \/ (phase' = "ended" /\ "!start" \notin Env))) => PrintT(ToJson([setup |-> Setup, hist |-> hist']))
=============================================================================
