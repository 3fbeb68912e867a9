---------------------------- MODULE ClangVersion ----------------------------
(***************************************************************************)
(* Is the clang++ that is found of any use? It has to be of version 9 or      *)
(* later, going by the first line of what it says about its version.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Prefixes, Words, Majors, Minors, Rests, Before, After, Ends

VARIABLES ans, what
vars == <<ans, what>>

(* a line that gives a version, in the usual way or another *)
Line(a) == a.prefix \o a.word \o a.major \o a.minor \o a.rest
(* the version is the number between the words and a dot that is followed by another number *)
Usual(a) == a.word = "clang version " /\ a.major \notin {"", "x", "-9"} /\ (a.minor \in {".0", ".1", ".14"} \/ (a.minor = "" /\ a.rest \in {".0", ".1 (x 9.0)"}))
Number == [n \in {"0", "3", "8", "9", "10", "14", "99", "007", "009", "010"} |-> CASE n = "0" -> 0 [] n = "3" -> 3 [] n = "8" -> 8 [] n = "9" -> 9 [] n = "10" -> 10 [] n = "14" -> 14 [] n = "99" -> 99 [] n = "007" -> 7 [] n = "009" -> 9 [] n = "010" -> 10]
OfLine(a) == IF ~Usual(a) THEN [ok |-> FALSE, why |-> "unexpected output starting with"]
             ELSE IF a.major \notin DOMAIN Number THEN [ok |-> FALSE, why |-> "unexpected output starting with"]   \* no number that makes sense
             ELSE IF Number[a.major] >= 9 THEN [ok |-> TRUE, why |-> ""] ELSE [ok |-> FALSE, why |-> "clang++ is too old (need at least v9 for time-trace, got v" \o ToString(Number[a.major]) \o ")"]
Bad(w) == [ok |-> FALSE, why |-> w]
(* only what is printed to the standard output of a program that succeeds counts, and the first line of it *)
Verdict(a) == CASE a.end = "missing" -> Bad("could not find clang++")
                [] a.end = "forbidden" -> Bad("clang++ test run failed with an I/O error")
                [] a.end \in {"1", "127", "signal"} -> Bad("returned failing status")
                [] a.before = "notutf8" \/ (a.after = "notutf8" /\ a.end # "stderr") -> Bad("returned non-UTF-8 bytes")
                [] a.end = "stderr" /\ a.before = "" -> Bad("returned empty output")
                [] a.before # "" -> Bad("unexpected output starting with")
                [] OTHER -> OfLine(a)
Answers == [prefix : Prefixes, word : Words, major : Majors, minor : Minors, rest : Rests, before : Before, after : After, end : Ends]
Init == ans \in Answers /\ what = "asked"
Next == what = "asked" /\ what' = "told" /\ UNCHANGED ans /\ PrintT(ToJson([line |-> Line(ans), before |-> ans.before, after |-> ans.after, end |-> ans.end, verdict |-> Verdict(ans)]))
Spec == Init /\ [][Next]_vars
(* nothing too old or unknown is ever used *)
OnlySuitable == Verdict(ans).ok => /\ ans.end = "0" /\ ans.major \in DOMAIN Number /\ Number[ans.major] >= 9
=============================================================================
