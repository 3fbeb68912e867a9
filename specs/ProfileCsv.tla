----------------------------- MODULE ProfileCsv -----------------------------
(***************************************************************************)
(* A build profile written row by row, by a measurement or by someone else, *)
(* and what reading it back gives: the same units in the same order, or an   *)
(* error if a row cannot be understood.                                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC, Json

CONSTANTS Files, Sizes, BadSizes, Walls, BadWalls, Headers, Shapes, MaxRows, Simple

VARIABLES header, rows, result
vars == <<header, rows, result>>

Columns(h) == CASE h = "usual" -> <<"file", "max_rss", "time">> [] h = "permuted" -> <<"time", "file", "max_rss">> [] h = "untimed" -> <<"file", "max_rss">>
                [] h = "extra" -> <<"file", "note", "max_rss", "time">> [] h = "nofile" -> <<"max_rss", "time">> [] h = "nosize" -> <<"file", "time">> [] h = "renamed" -> <<"file", "maxrss", "time">>
                (* what is left of a profile that was cut, or something else *)
                [] h = "cut" -> <<"file", "max_r">> [] h = "cut2" -> <<"fi">> [] h = "lost" -> <<"src/a.cpp", "1234", "1.5">> [] h = "text" -> <<"Hello">>
Has(h, c) == \E i \in 1..Len(Columns(h)) : Columns(h)[i] = c

Proper(h) == Has(h, "file") /\ Has(h, "max_rss")
Row == [file : Files, size : Sizes \cup BadSizes, wall : Walls \cup BadWalls, shape : Shapes]
(* A row is understood if it has as many cells as there are columns, all of those needed, and these make sense *)
Understood(h, r) == /\ Proper(h) /\ r.shape = "full" /\ r.size \notin BadSizes
                    /\ (Has(h, "time") => r.wall \notin BadWalls)
Unit(h, r) == <<r.file, r.size, IF Has(h, "time") THEN r.wall ELSE "">>
Reading(h, rs) == IF Proper(h) /\ \A i \in 1..Len(rs) : Understood(h, rs[i]) THEN [ok |-> TRUE, units |-> [i \in 1..Len(rs) |-> Unit(h, rs[i])]]
                  ELSE [ok |-> FALSE, units |-> <<>>]

(* nothing at all is the profile of no unit *)
Init == header = "" /\ rows = <<>> /\ result = [ok |-> TRUE, units |-> <<>>]
Begin == /\ header = "" /\ header' \in Headers /\ rows' = rows /\ result' = Reading(header', <<>>)
Write == /\ header # "" /\ Len(rows) < MaxRows
         /\ \E r \in (IF Simple THEN Row ELSE {RandomElement(Row)}) : rows' = Append(rows, r)
         /\ result' = Reading(header, rows') /\ UNCHANGED header
Spec == Init /\ [][Begin \/ Write]_vars

-----------------------------------------------------------------------------
(* Writing more never changes what was there, and errors do not heal *)
Grows == [][IF result'.ok THEN result.ok /\ IsPrefix(result.units, result'.units) ELSE TRUE]_vars
OnePerRow == result.ok => Len(result.units) = Len(rows)
Emit == PrintT(ToJson([header |-> Columns(header'), rows |-> rows', result |-> result']))
=============================================================================
