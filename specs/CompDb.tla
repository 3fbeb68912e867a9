------------------------------- MODULE CompDb -------------------------------
(***************************************************************************)
(* A compilation database: written by CMake entry by entry (with or without  *)
(* something wrong with them), loaded, then possibly completed and emptied   *)
(* by the program.                                                           *)
(*                                                                          *)
(* The file system around it is a tree of directories with a symbolic link. *)
(* The output of an entry is the recorded one, else what follows -o in the    *)
(* command, from the entry's directory.                                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC, Json

CONSTANTS Files, Dirs, Outs, Faults, FileFaults, MaxEntries, MaxOps, Simple

VARIABLES file,    \* entries of compile_commands.json
          state,   \* "writing", "loaded", "refused"
          db,      \* file name -> entry
          hist
vars == <<file, state, db, hist>>

-----------------------------------------------------------------------------
(* Paths are sequences of names; a path is taken from a directory *)
Root == <<"R">>
(* directories that exist: R, R/sub, R/sub/deep, R/other; R/link is R/sub/deep *)
Existing == {<<>>, Root, <<"R", "sub">>, <<"R", "sub", "deep">>, <<"R", "other">>}
Link(p) == IF p = <<"R", "link">> THEN <<"R", "sub", "deep">> ELSE p
(* the canonical form of a path, one name at a time; <<"none">> if it does not exist *)
None == <<"none">>
RECURSIVE Canon(_, _)
Canon(at, names) ==
  IF at = None THEN None
  ELSE IF names = <<>> THEN at
  ELSE IF Head(names) = ".." THEN (IF at = <<>> THEN None ELSE Canon(Front(at), Tail(names)))
  ELSE IF Head(names) = "." THEN Canon(at, Tail(names))
  ELSE LET next == Link(Append(at, Head(names))) IN IF next \in Existing THEN Canon(next, Tail(names)) ELSE None

(* -o arguments: path, whether absolute (below R) *)
OutPath(o) == CASE o = "plain" -> <<"x.o">> [] o = "sub" -> <<"sub", "x.o">> [] o = "up" -> <<"..", "x.o">>
                [] o = "link" -> <<"link", "x.o">> [] o = "uplink" -> <<"link", "..", "y.o">> [] o = "missing" -> <<"nope", "x.o">>
                [] o = "missingup" -> <<"nope", "..", "x.o">> [] o = "abs" -> <<"R", "other", "z.o">> [] o = "absmissing" -> <<"R", "gone", "z.o">>
                [] o = "dot" -> <<".", "x.o">> [] o = "dirname" -> <<"sub", "deep">> [] OTHER -> <<"x.o">>
IsAbs(o) == o \in {"abs", "absmissing"}
(* directories of entries *)
Dir(d) == CASE d = "root" -> <<"R">> [] d = "sub" -> <<"R", "sub">> [] d = "link" -> <<"R", "link">> [] d = "gone" -> <<"R", "gone">> [] d = "dots" -> <<"R", "sub", "..", "other">>
(* from the directory of the entry, else as spelled *)
Resolve(dir, o) ==
  LET p == OutPath(o)
      base == IF IsAbs(o) THEN <<"R">> ELSE Dir(dir)
      rel == Front(IF IsAbs(o) THEN Tail(p) ELSE p)
      c == Canon(<<>>, base \o rel)
  IN [canonical |-> c # None, path |-> Append(IF c # None THEN c ELSE base \o rel, Last(p))]

(* An entry: file f, directory d, command line made of words, recorded output or none.
   out: what the command says about output: "none", "last" (-o at the very end), "dotdot" (-o ..), or one of the above *)
Entry(f, d, args, first, out, recorded, fault) == [first |-> first, f |-> f, d |-> d, args |-> args, out |-> out, recorded |-> recorded, fault |-> fault]
OutWords(e) == CASE e.out = "none" -> <<>> [] e.out = "last" -> <<"-o">> [] e.out = "dotdot" -> <<"-o", "..">>
                 [] e.out = "joined" -> <<"-ox.o">> [] e.out = "quoted" -> <<"-o", "x y.o">> [] OTHER -> <<"-o", e.out>>
Words(e) == <<"cc">> \o (IF e.first /\ e.out # "last" THEN OutWords(e) \o e.args ELSE e.args \o OutWords(e))
Output(e) == IF e.recorded # "none" THEN [kind |-> "recorded", text |-> e.recorded]
             ELSE IF e.out \in {"none", "last", "dotdot", "joined"} THEN [kind |-> "none"]
             ELSE IF e.out = "quoted" THEN [kind |-> "path", canonical |-> Canon(<<>>, Dir(e.d)) # None,
                                            path |-> Append(IF Canon(<<>>, Dir(e.d)) # None THEN Canon(<<>>, Dir(e.d)) ELSE Dir(e.d), "x y.o")]
             ELSE LET r == Resolve(e.d, e.out) IN [kind |-> "path", canonical |-> r.canonical, path |-> r.path]

-----------------------------------------------------------------------------
Init == file = <<>> /\ state = "writing" /\ db = <<>> /\ hist = <<>>
Log(x) == hist' = Append(hist, x)
Full(e) == [e EXCEPT !.args = Words(e)] @@ [output |-> Output(e)]

Args == {<<>>, <<"-c", "a b.cpp">>, <<"-DX=\"y z\"", "">>, <<"x.o", "'", "\\">>, <<"-output", "--o", "a b.cpp", "-O">>}
NewEntries == {Entry(f, d, a, b, o, r, x) : b \in BOOLEAN, f \in Files, d \in Dirs, a \in Args, o \in Outs, r \in {"none", "obj/rec.o", "/abs/rec.o"}, x \in Faults}
Chosen(n) == IF Simple THEN NewEntries ELSE {RandomElement(NewEntries)}
Write == /\ state = "writing" /\ Len(file) < MaxEntries
         /\ \E e \in Chosen(Len(file)) : file' = Append(file, e) /\ Log([op |-> "write", e |-> Full(e)])
         /\ UNCHANGED <<state, db>>
Put(m, e) == (e.f :> Full(e)) @@ m
RECURSIVE Gather(_, _)
Gather(m, es) == IF es = <<>> THEN m ELSE Gather(Put(m, Head(es)), Tail(es))
Load == /\ state = "writing"
        /\ \E x \in FileFaults :
           /\ Log([op |-> "load", fault |-> x])
           /\ IF x # "none" \/ \E i \in 1..Len(file) : file[i].fault # "none"
              THEN state' = "refused" /\ db' = <<>>
              ELSE state' = "loaded" /\ db' = Gather(<<>>, file)
        /\ UNCHANGED file
Push == /\ state = "loaded" /\ Len(hist) < MaxOps
        /\ \E e \in {x \in Chosen(Len(file)) : x.f \notin DOMAIN db /\ x.fault = "none"} : db' = Put(db, e) /\ Log([op |-> "push", e |-> Full(e)])
        /\ UNCHANGED <<file, state>>
Clear == /\ state = "loaded" /\ Len(hist) < MaxOps /\ db' = <<>> /\ Log([op |-> "clear"]) /\ UNCHANGED <<file, state>>
Next == Write \/ Load \/ Push \/ Clear
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* the last entry of a file wins *)
LastWins == state = "loaded" /\ Last(hist).op = "load" =>
  \A f \in Files : IF \E i \in 1..Len(file) : file[i].f = f
                   THEN LET i == CHOOSE i \in 1..Len(file) : file[i].f = f /\ \A j \in (i + 1)..Len(file) : file[j].f # f IN db[f] = Full(file[i])
                   ELSE f \notin DOMAIN db
AllOrNothing == state = "refused" => db = <<>>
RecordedFirst == \A f \in DOMAIN db : db[f].recorded # "none" => db[f].output.text = db[f].recorded

Emit == (state' # "writing") => PrintT(ToJson([file |-> file', hist |-> hist', state |-> state', db |-> [i \in 1..Cardinality(DOMAIN db') |-> db'[SetToSeq(DOMAIN db')[i]]]]))
=============================================================================
