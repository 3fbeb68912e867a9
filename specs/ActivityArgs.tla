----------------------------- MODULE ActivityArgs -----------------------------
(***************************************************************************)
(* What the argument of an activity means, and how arguments are decoded   *)
(* on demand, in any order, through state shared by the whole trace: one    *)
(* store of paths, one store of C++ names, one demangling buffer.           *)
(* Actions: Record (an event is in the file), Load, Decode (one activity). *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, ActivityTable

CONSTANTS Names,     \* names of activities explored ({} = all those of the table)
          Details,   \* ids of argument texts explored ({} = all)
          MaxEv, MaxDec, ExactDec

(* Argument texts. path: normalized form if it is an absolute path.         *)
(* ent: displayed form if it reads as a C++ name. sym/symtext: what it gives *)
(* as a symbol. infer: what it is taken for on an activity clang is not     *)
(* known to record. "~e" stands for a non-ASCII letter, "~L" for a path of    *)
(* hundreds of components, "~N" for a list of more than a thousand types.    *)
D(i, t, inf, p, e, s, st) == [id |-> i, text |-> t, infer |-> inf, path |-> p, ent |-> e, sym |-> s, symtext |-> st]
MM == "SymbolMaybeMangled"
AllDetails == {
  D("p1", "/usr/a.hpp", "FilePathOrModule", "/usr/a.hpp", "", MM, "/usr/a.hpp"),
  D("p1b", "/usr/./x/../a.hpp", "FilePathOrModule", "/usr/a.hpp", "", MM, "/usr/./x/../a.hpp"),
  D("p1c", "//usr/a.hpp/", "FilePathOrModule", "/usr/a.hpp", "", MM, "//usr/a.hpp/"),
  D("p2", "/usr/lib/a.hpp", "FilePathOrModule", "/usr/lib/a.hpp", "", MM, "/usr/lib/a.hpp"),
  D("p3", "/", "FilePathOrModule", "/", "", MM, "/"),
  D("p4", "/../home/jos~e/my file.cpp", "FilePathOrModule", "/home/jos~e/my file.cpp", "", MM, "/../home/jos~e/my file.cpp"),
  D("p5", "/~L", "FilePathOrModule", "/~L", "", MM, "/~L"),
  D("e10", "f<~N>", "CppEntity", "", "f<~N>", MM, "f<~N>"),
  D("mod", "[module]", "FilePathOrModule", "", "", MM, "[module]"),
  D("rel", "src/b.hpp", "CppEntity", "", "", MM, "src/b.hpp"),
  D("e1", "std::vector<int>", "CppEntity", "", "std::vector<int>", MM, "std::vector<int>"),
  D("e1b", "std::vector< int >", "CppEntity", "", "std::vector<int>", MM, "std::vector< int >"),
  D("e2", "A::f()", "CppEntity", "", "A::f()", MM, "A::f()"),
  D("e3", "(lambda at /usr/a.hpp:1:2)", "CppEntity", "", "(lambda at /usr/a.hpp:1:2)", MM, "lambda at /usr/a.hpp:1:2"),
  D("e4", "(lambda at a.hpp:1:2)", "CppEntity", "", "", MM, "lambda at a.hpp:1:2"),
  D("e5", "unsigned int", "CppEntity", "", "unsigned int", MM, "unsigned int"),
  D("e6", "<unknown>", "CppEntity", "", "<unknown>", MM, "<unknown>"),
  D("e7", "std::vector<", "CppEntity", "", "", MM, "std::vector<"),
  D("e8", "jos~e::f", "CppEntity", "", "", MM, "jos~e::f"),
  D("e9", "A::g(int)", "CppEntity", "", "A::g(int)", MM, "A::g(int)"),
  D("m1", "_ZN1A1fEv", "Symbol", "", "_ZN1A1fEv", "SymbolParsed", "A::f()"),
  D("m1b", "(_ZN1A1fEv)", "Symbol", "", "", "SymbolParsed", "A::f()"),
  D("m2", "_ZN1A1gEi", "Symbol", "", "_ZN1A1gEi", "SymbolParsed", "A::g(int)"),
  D("m3", "_Zbroken", "Symbol", "", "_Zbroken", MM, "_Zbroken"),
  D("m4", "_ZN1B6insertIJEEEvN9__gnu_cxx4iterIPiEEDpOT_", "Symbol", "", "_ZN1B6insertIJEEEvN9__gnu_cxx4iterIPiEEDpOT_",
        "SymbolDemangled", "B::insert<>(__gnu_cxx::iter<int*>, &&)"),
  D("m5", "(_ZN1A1gEi)", "Symbol", "", "", "SymbolParsed", "A::g(int)"),
  (* demangling these fails after some text was produced *)
  D("m6", "_Z1fIiEvT5_", "Symbol", "", "_Z1fIiEvT5_", MM, "_Z1fIiEvT5_"),
  D("m7", "_ZN3fooIiE3barIcEEvT7_", "Symbol", "", "_ZN3fooIiE3barIcEEvT7_", MM, "_ZN3fooIiE3barIcEEvT7_"),
  D("m8", "(_Z3fooIiEvT9_T8_)", "Symbol", "", "", MM, "_Z3fooIiEvT9_T8_"),
  D("s1", "main", "Symbol", "", "main", "SymbolParsed", "main"),
  D("s1b", "(main)", "Symbol", "", "", "SymbolParsed", "main"),
  D("s2", "__cxx_global_var_init.3", "Symbol", "", "", MM, "__cxx_global_var_init.3"),
  D("s3", "__clang_call_terminate", "Symbol", "", "__clang_call_terminate", "SymbolParsed", "__clang_call_terminate"),
  D("s4", "_GLOBAL__sub_I_x.cpp", "Symbol", "", "", MM, "_GLOBAL__sub_I_x.cpp"),
  D("l1", "<unnamed loop>", "UnnamedLoop", "", "", MM, "<unnamed loop>"),
  D("t1", "X86 DAG->DAG Instruction Selection", "String", "", "", MM, "X86 DAG->DAG Instruction Selection"),
  D("t2", "", "String", "", "", MM, ""),
  D("t3", "~Et~e", "String", "", "", MM, "~Et~e"),
  D("t4", "Expand memcmp() to load/stores", "String", "", "", MM, "Expand memcmp() to load/stores"),
  D("q1", "(", "CppEntity", "", "", MM, "("),
  D("q2", "()", "CppEntity", "", "", MM, "") }

(* Shapes of the argument record; only "detail" carries a text *)
Shapes == { "none", "empty", "number", "null", "extra", "other" }

Unknown == { <<"Zorglub", "UnknownActivity(\"Zorglub\")", "?">>,
             <<"Total Source", "UnknownActivity(\"Total Source\")", "?">> }
Acts == { r \in Table \cup Unknown : Names = {} \/ r[1] \in Names }
Texts == { d \in AllDetails : Details = {} \/ d.id \in Details }
NoText == D("", "", "", "", "", "", "")
Events == { [name |-> r[1], kind |-> r[2], ty |-> r[3], shape |-> "detail", d |-> d] : r \in Acts, d \in Texts }
          \cup (IF Details = {} THEN { [name |-> r[1], kind |-> r[2], ty |-> r[3], shape |-> s, d |-> NoText] : r \in Acts, s \in Shapes } ELSE {})

Optional == { "SymbolOpt", "UnnamedLoopOpt", "?" }

(* Set of faults that loading may report for this event ({} = none) *)
ArgFaults(e) ==
  IF e.ty = "Nothing"
  THEN (IF e.shape \in {"none", "empty"} THEN {} ELSE {"UnexpectedKeys"})
  ELSE CASE e.shape = "detail" -> {}
         [] e.shape \in {"none", "empty"} -> (IF e.ty \in Optional THEN {} ELSE {"MissingKey"})
         [] e.shape \in {"number", "null"} -> {"UnexpectedValue"}
         [] e.shape \in {"extra", "other"} -> {"UnexpectedKeys"}

(* How the argument will be understood *)
Type(e) == IF e.ty = "?" THEN (IF e.shape = "detail" THEN e.d.infer ELSE "Nothing") ELSE e.ty

(* What decoding it must give: <<variant, text>> *)
Symbolic(d) == <<d.sym, d.symtext>>
Meaning(e) ==
  LET t == Type(e) d == e.d has == e.shape = "detail" IN
  CASE t = "Nothing" -> <<"Nothing", "">>
    [] t = "String" -> <<"String", d.text>>
    [] t = "FilePathOrModule" -> (IF d.id = "mod" THEN <<"Module", "">>
                                  ELSE IF d.path # "" THEN <<"FilePath", d.path>> ELSE <<"Error", "BadFilePath">>)
    [] t = "CppEntity" -> (IF d.ent # "" THEN <<"CppEntity", d.ent>> ELSE <<"Error", "BadCppEntity">>)
    [] t = "Symbol" \/ (t = "SymbolOpt" /\ has) -> Symbolic(d)
    [] t = "UnnamedLoop" \/ (t = "UnnamedLoopOpt" /\ has) ->
         (IF d.id = "l1" THEN <<"UnnamedLoop", "">> ELSE <<"Error", "UnexpectedLoopName">>)
    [] OTHER -> <<"Nothing", "">>

VARIABLES evs, phase, paths, ents, buf, out
vars == <<evs, phase, paths, ents, buf, out>>

Init == evs = <<>> /\ phase = "record" /\ paths = <<>> /\ ents = <<>> /\ buf = "" /\ out = <<>>

Record(e) == /\ phase = "record" /\ Len(evs) < MaxEv
             /\ ~\E i \in 1..Len(evs) : ArgFaults(evs[i]) # {}   \* nothing is read after a fault
             /\ evs' = Append(evs, e) /\ UNCHANGED <<phase, paths, ents, buf, out>>

Load == /\ phase = "record" /\ evs # <<>>
        /\ (Len(evs) = MaxEv \/ ArgFaults(evs[Len(evs)]) # {})
        /\ phase' = IF \E i \in 1..Len(evs) : ArgFaults(evs[i]) # {} THEN "rejected" ELSE "loaded"
        /\ UNCHANGED <<evs, paths, ents, buf, out>>

Index(seq, x) == IF \E i \in 1..Len(seq) : seq[i] = x THEN CHOOSE i \in 1..Len(seq) : seq[i] = x ELSE Len(seq) + 1
Intern(seq, x) == IF Index(seq, x) > Len(seq) THEN Append(seq, x) ELSE seq
Res(i, v, key, text) == [ev |-> i, v |-> v, key |-> key, text |-> text]

Decode(i) ==
  LET e == evs[i] d == e.d t == Type(e) IN
  /\ phase = "loaded" /\ Len(out) < MaxDec
  /\ IF t = "FilePathOrModule" /\ d.id # "mod" /\ d.path # "" THEN
       /\ paths' = Intern(paths, d.path) /\ out' = Append(out, Res(i, "FilePath", Index(paths, d.path), ""))
       /\ UNCHANGED <<ents, buf>>
     ELSE IF t = "CppEntity" /\ d.ent # "" THEN
       /\ ents' = Intern(ents, d.ent) /\ out' = Append(out, Res(i, "CppEntity", Index(ents, d.ent), ""))
       /\ paths' = (IF d.id = "e3" THEN Intern(paths, "/usr/a.hpp") ELSE paths)   \* the location of a lambda
       /\ UNCHANGED buf
     ELSE IF t \in {"Symbol", "SymbolOpt"} /\ e.shape = "detail" THEN
       (* demangled through the buffer, then read from it *)
       /\ buf' = (IF d.sym \in {"SymbolParsed", "SymbolDemangled"} /\ d.id \notin {"s1", "s1b", "s3"} THEN d.symtext ELSE buf)
       /\ LET text == IF buf' # buf \/ buf = d.symtext THEN buf' ELSE d.symtext IN
          IF d.sym = "SymbolParsed"
          THEN ents' = Intern(ents, text) /\ out' = Append(out, Res(i, d.sym, Index(ents, text), ""))
          ELSE UNCHANGED ents /\ out' = Append(out, Res(i, d.sym, 0, text))
       /\ UNCHANGED paths
     ELSE out' = Append(out, Res(i, Meaning(e)[1], 0, Meaning(e)[2])) /\ UNCHANGED <<paths, ents, buf>>
  /\ UNCHANGED <<evs, phase>>

Next == (\E e \in Events : Record(e)) \/ Load \/ (\E i \in 1..Len(evs) : Decode(i))
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Resolve(r) == CASE r.v = "FilePath" -> <<r.v, paths[r.key]>>
                [] r.v \in {"CppEntity", "SymbolParsed"} -> <<r.v, ents[r.key]>>
                [] OTHER -> <<r.v, r.text>>
(* every decoded argument is, and stays, the one of its own event *)
OwnArgument == \A k \in 1..Len(out) : Resolve(out[k]) = Meaning(evs[out[k].ev])
Same(r, s) == r.v = s.v /\ r.key = s.key /\ r.text = s.text
EqualIffSame == \A k, l \in 1..Len(out) : Same(out[k], out[l]) <=> Meaning(evs[out[k].ev]) = Meaning(evs[out[l].ev])
RejectIffBad == phase = "loaded" => \A i \in 1..Len(evs) : ArgFaults(evs[i]) = {}

Case == [ evs |-> [i \in 1..Len(evs) |-> [name |-> evs[i].name, kind |-> evs[i].kind, shape |-> evs[i].shape, text |-> evs[i].d.text,
                                          ty |-> Type(evs[i])]],
          phase |-> phase,
          faults |-> IF phase = "rejected" THEN ArgFaults(evs[Len(evs)]) ELSE {},
          order |-> [k \in 1..Len(out) |-> out[k].ev],
          res |-> [k \in 1..Len(out) |-> Resolve(out[k])],
          eq |-> { <<k, l>> \in (1..Len(out)) \X (1..Len(out)) : k < l /\ out[k].v # "Error" /\ out[l].v # "Error" /\ Same(out[k], out[l]) } ]
Emit == (phase' = "rejected" \/ (phase' = "loaded" /\ Len(out') = MaxDec)) => PrintT(ToJson(Case'))
Canonical == ExactDec => \A k \in 1..Len(out) : \A l \in 1..(k - 1) : out[k].ev # out[l].ev
=============================================================================
