------------------------------- MODULE Shell -------------------------------
(***************************************************************************)
(* A command line being typed, one character at a time, and the words it    *)
(* designates under shell quoting rules.                                    *)
(*                                                                          *)
(* Unquoted, single quoted and double quoted text, escapes, comments and     *)
(* line continuations. Expansions ($, ` outside of single quotes, globs) are *)
(* never typed, neither is a line continuation between words.                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC, Json

CONSTANTS Ordinary, MaxLen

VARIABLES text,   \* what was typed
          mode,   \* where we are: "gap", "word", "single", "double", "escape", "dqescape", "comment"
          words,  \* finished words
          word    \* the current one
vars == <<text, mode, words, word>>

Blank == {" ", "\t", "\n"}
Special == {"'", "\"", "\\", "#", "$"} \cup Blank

Init == text = "" /\ mode = "gap" /\ words = <<>> /\ word = ""

Step(ch, m, ws, w) == text' = text \o ch /\ mode' = m /\ words' = ws /\ word' = w

(* Outside of quotes *)
Plain(ch) == mode \in {"gap", "word"} /\
  \/ ch \in Ordinary /\ Step(ch, "word", words, word \o ch)
  \/ ch \in Blank /\ mode = "gap" /\ Step(ch, "gap", words, "")
  \/ ch \in Blank /\ mode = "word" /\ Step(ch, "gap", Append(words, word), "")
  \/ ch = "'" /\ Step(ch, "single", words, word)
  \/ ch = "\"" /\ Step(ch, "double", words, word)
  \/ ch = "\\" /\ Step(ch, IF mode = "gap" THEN "firstescape" ELSE "escape", words, word)
  \/ ch = "#" /\ mode = "gap" /\ Step(ch, "comment", words, "")
  \/ ch = "#" /\ mode = "word" /\ Step(ch, "word", words, word \o ch)
Escaped(ch) == \/ mode = "escape" /\ Step(ch, "word", words, IF ch = "\n" THEN word ELSE word \o ch)
               \/ mode = "firstescape" /\ ch # "\n" /\ Step(ch, "word", words, word \o ch)
Single(ch) == mode = "single" /\ (IF ch = "'" THEN Step(ch, "word", words, word) ELSE Step(ch, mode, words, word \o ch))
Double(ch) == mode = "double" /\ ch # "$" /\
  (CASE ch = "\"" -> Step(ch, "word", words, word)
     [] ch = "\\" -> Step(ch, "dqescape", words, word)
     [] OTHER -> Step(ch, mode, words, word \o ch))
DqEscaped(ch) == mode = "dqescape" /\
  Step(ch, "double", words, word \o (IF ch = "\n" THEN "" ELSE IF ch \in {"$", "\"", "\\", "`"} THEN ch ELSE "\\" \o ch))
Comment(ch) == mode = "comment" /\ Step(ch, IF ch = "\n" THEN "gap" ELSE "comment", words, "")

Type(ch) == Plain(ch) \/ Escaped(ch) \/ Single(ch) \/ Double(ch) \/ DqEscaped(ch) \/ Comment(ch)
Next == Len(text) < MaxLen /\ \E ch \in Ordinary \cup Special : Type(ch)
Spec == Init /\ [][Next]_vars

(* The command could stop here *)
Complete(m) == m \in {"gap", "word", "comment"}
Words(m, ws, w) == IF m = "word" THEN Append(ws, w) ELSE ws

-----------------------------------------------------------------------------
(* Quoting a text brings it back *)
NoWordFromNothing == text = "" => words = <<>>
(* words only ever grow at the end *)
Prefix == [][IsPrefix(words, words')]_vars
(* what is inside single quotes stands for itself *)
SingleIsLiteral == [][mode = "single" /\ mode' = "single" => \E ch \in Ordinary \cup Special : text' = text \o ch /\ word' = word \o ch]_vars
(* only blanks outside of quotes separate words *)
OnlyBlanksSeparate == [][words' # words => mode = "word" /\ mode' = "gap" /\ \E ch \in Blank : text' = text \o ch]_vars

Emit == Complete(mode') => PrintT(ToJson([t |-> text', w |-> Words(mode', words', word')]))
=============================================================================
