------------------------------ MODULE CppNames ------------------------------
(***************************************************************************)
(* A session of reading C++ entity names.                                   *)
(*                                                                          *)
(* Names are derived with a stack machine: each action derives one more     *)
(* construct of the grammar from the constructs on top of the stack. Each   *)
(* construct has a spelling (in which ` stands for optional, ~ for mandatory  *)
(* white space and ; for ~) and a document: what is displayed, with the        *)
(* places where detail can be left out. At level of detail d, areas nested   *)
(* d deep are replaced by an ellipsis. Read adds the name on top of the      *)
(* stack to the session; two names are the same entity iff their complete    *)
(* displays are the same. Junk is text that is not a name.                   *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, TLC, Json

CONSTANTS Ids, Literals, Random, MaxOps, MaxReads, MaxSize, MaxStack, Constructs

VARIABLES stack, session, nops
vars == <<stack, session, nops>>

-----------------------------------------------------------------------------
(* Documents: sequences of pieces *)
T(s) == [k |-> "text", s |-> s]
Slice(h, items, sep, t) == [k |-> "slice", h |-> h, items |-> items, sep |-> sep, t |-> t]
Path(rooted, scopes) == [k |-> "path", rooted |-> rooted, scopes |-> scopes]
Params(items, variadic) == [k |-> "params", params |-> items, variadic |-> variadic]
D(s) == <<T(s)>>

MaxOver(S) == CHOOSE x \in S : \A y \in S : y <= x

RECURSIVE Depth(_)
ItemsDepth(items) == IF items = <<>> THEN 0 ELSE 1 + MaxOver({Depth(items[i]) : i \in 1..Len(items)})
PieceDepth(p) == CASE p.k = "text" -> 0
                   [] p.k = "slice" -> ItemsDepth(p.items)
                   [] p.k = "path" -> ItemsDepth(p.scopes)
                   [] p.k = "params" -> MaxOver({ItemsDepth(p.params), IF p.variadic THEN 1 ELSE 0})
Depth(doc) == MaxOver({0} \cup {PieceDepth(doc[i]) : i \in 1..Len(doc)})

RECURSIVE Show(_, _)
Join(items, sep, d) == LET RECURSIVE J(_)
                           J(i) == IF i > Len(items) THEN ""
                                   ELSE Show(items[i], d) \o (IF i = Len(items) THEN "" ELSE sep) \o J(i + 1)
                       IN J(1)
Area(h, items, sep, t, d) == h \o (IF d > 0 THEN Join(items, sep, d - 1) ELSE IF items = <<>> THEN "" ELSE "…") \o t
ShowPiece(p, d) ==
  CASE p.k = "text" -> p.s
    [] p.k = "slice" -> Area(p.h, p.items, p.sep, p.t, d)
    [] p.k = "path" -> IF p.scopes # <<>> /\ d = 0 THEN "…::"
                       ELSE (IF p.rooted THEN "::" ELSE "") \o Area("", p.scopes, "", "", d)
    [] p.k = "params" ->
         "(" \o (IF d > 0 THEN Join(p.params, ", ", d - 1) \o (IF ~p.variadic THEN "" ELSE IF p.params = <<>> THEN "..." ELSE ", ...")
                 ELSE IF p.params = <<>> /\ ~p.variadic THEN "" ELSE "…") \o ")"
Show(doc, d) == LET RECURSIVE S(_)
                    S(i) == IF i > Len(doc) THEN "" ELSE ShowPiece(doc[i], d) \o S(i + 1)
                IN S(1)
Full(doc) == Show(doc, Depth(doc))
Levels(doc) == [i \in 1..(Depth(doc) + 1) |-> Show(doc, i - 1)]

-----------------------------------------------------------------------------
Starts(s, prefix) == Len(s) >= Len(prefix) /\ SubSeq(s, 1, Len(prefix)) = prefix
(* Constructs. sort: "id" identifier, "unq" unqualified name, "opn" operator name (to which nothing symbolic can be added), "path" list of scopes, "name" qualified name,
   "type" (spec and declarators apart), "sig" function signature, "lit" value that cannot be taken for a type,
   "val" other value. open: more can be added at its end. *)
Node(sort, src, doc, open) == [sort |-> sort, src |-> src, doc |-> doc, open |-> open]

RECURSIVE Cat(_, _, _)
Cat(nodes, i, sep) == IF i > Len(nodes) THEN "" ELSE nodes[i].src \o (IF i = Len(nodes) THEN "" ELSE sep) \o Cat(nodes, i + 1, sep)
Sources(nodes) == Cat(nodes, 1, "`,`")
(* types keep their declarators apart *)
TypeDoc(n) == IF n.decls = <<>> THEN n.doc ELSE n.doc \o <<Slice("", n.decls, "", "")>>
ValDoc(n) == IF n.trail = <<>> THEN n.doc ELSE n.doc \o <<Slice("", n.trail, "", "")>>
Doc(n) == CASE n.sort = "type" -> TypeDoc(n) [] n.sort \in {"lit", "val"} -> ValDoc(n) [] OTHER -> n.doc
Docs(nodes) == [i \in 1..Len(nodes) |-> Doc(nodes[i])]
IsOpen(n) == n.open = "yes"
Closed(n) == IF n.open = "op" THEN "op" ELSE "no"
TypeNode(src, doc, decls, last, open) == [sort |-> "type", src |-> src, doc |-> doc, decls |-> decls, last |-> last, open |-> open]
ValNode(sort, src, doc, trail, open) == [sort |-> sort, src |-> src, doc |-> doc, trail |-> trail, open |-> open]

TemplateArg(n) == n.sort \in {"type", "lit"} /\ n.open # "op"
Value(n) == n.sort \in {"lit", "val"}
All(nodes, P(_)) == \A i \in 1..Len(nodes) : P(nodes[i])
Top(k) == SubSeq(stack, Len(stack) - k + 1, Len(stack))
Below(k) == SubSeq(stack, 1, Len(stack) - k)
Pick(S) == IF S = {} THEN {} ELSE IF Random THEN {RandomElement(S)} ELSE S
(* many spellings that differ in nothing else: few when exploring exhaustively *)
Some(S, few) == IF Random THEN Pick(S) ELSE few

On(c) == c \in Constructs /\ nops < MaxOps
(* when exploring exhaustively, what can no longer be made into one type is not pursued *)
CanEnd(size) == Random \/ size - 1 <= 2 * (MaxOps - nops - 1)
Push(rest, n) == /\ Len(n.src) <= MaxSize /\ Len(rest) < MaxStack /\ CanEnd(Len(rest) + 1)
                 /\ stack' = Append(rest, n) /\ nops' = nops + 1 /\ UNCHANGED session

Identifier == On("id") /\ \E x \in Pick(Ids) : Push(stack, Node("id", x, D(x), "yes"))
(* an identifier is an unqualified name, possibly of a template or of a destructor *)
Name == On("name") /\ Len(stack) >= 1 /\ Top(1)[1].sort = "id" /\ Push(Below(1), [Top(1)[1] EXCEPT !.sort = "unq"])
Destructor == On("dtor") /\ Len(stack) >= 1 /\ Top(1)[1].sort = "id"
              /\ Push(Below(1), Node("unq", ";" \o Top(1)[1].src, D("~") \o Top(1)[1].doc, "yes"))
Template == On("template") /\ \E k \in Pick(0..3) :
  /\ Len(stack) > k /\ stack[Len(stack) - k].sort = "id"
  /\ LET args == Top(k) base == stack[Len(stack) - k] IN
     /\ All(args, TemplateArg)
     /\ \E cv \in Pick(IF Random THEN {"", "", "~const"} ELSE {""}) :   \* libiberty can put a meaningless qualifier there
        Push(Below(k + 1), Node("unq", base.src \o cv \o "<`" \o (IF k = 0 THEN "" ELSE Sources(args) \o "`") \o ">",
                                base.doc \o <<Slice("<", Docs(args), ", ", ">")>>, "yes"))
VoidTemplate == On("voidtemplate") /\ Len(stack) >= 1 /\ Top(1)[1].sort = "id"
                /\ Push(Below(1), Node("unq", Top(1)[1].src \o "<`, void>", Top(1)[1].doc \o <<Slice("<", <<D(", void")>>, "", ">")>>, "yes"))
Operators == {"+", "-", "*", "==", "!", "<=>", "->", "->*", "&&", "||", "<<=", "()", "[]", ","}
OperatorName == On("operator") /\ \E o \in Some(Operators, {"<=>"}) : Push(stack, Node("opn", "operator" \o o, D("operator" \o o), "op"))
AllocName == On("operator") /\ \E o \in Some({<<"operator~new", "operator new">>, <<"operator~delete[]", "operator delete[]">>,
                  <<"operator``\"\"`_km", "operator\"\" _km">>, <<"operator~co_await", "operator co_await">>}, {}) :
             Push(stack, Node("opn", o[1], D(o[2]), "op"))
OperatorTemplate == On("operator") /\ \E o \in Some({"+", "()", "=="}, {"()"}) :
  /\ Len(stack) >= 1 /\ TemplateArg(Top(1)[1])
  /\ Push(Below(1), Node(IF o = "()" THEN "unq" ELSE "opn", "operator" \o o \o "`<`" \o Top(1)[1].src \o "`>", D("operator" \o o) \o <<Slice("<", <<Doc(Top(1)[1])>>, ", ", ">")>>, IF o = "()" THEN "yes" ELSE "op"))
Conversion == On("operator") /\ Len(stack) >= 1 /\ Top(1)[1].sort = "type"
              /\ Push(Below(1), Node("unq", "operator~" \o Top(1)[1].src, D("operator ") \o Doc(Top(1)[1]), Closed(Top(1)[1])))
Decltype == On("decltype") /\ Len(stack) >= 1 /\ Value(Top(1)[1])
            /\ Push(Below(1), Node("unq", "decltype(`" \o Top(1)[1].src \o "`)", D("decltype(") \o Doc(Top(1)[1]) \o D(")"), "yes"))
Places == {"/a/b.h:1:2", "/x y/../z.cpp:33:444"}
Clean(p) == IF p = "/x y/../z.cpp:33:444" THEN "/z.cpp:33:444" ELSE p
Anonymous == On("anonymous") /\ \E a \in Some({<<"(anonymous namespace)", "(anonymous namespace)">>, <<"(anonymous)", "(anonymous)">>,
                 <<"(unnamed enum)", "(anonymous enum)">>, <<"{unnamed type#12}", "{unnamed type#12}">>}
                 \cup {<<"(lambda at " \o p \o ")", "(lambda at " \o Clean(p) \o ")">> : p \in Places}
                 \cup {<<"(anonymous struct at " \o p \o ")", "(anonymous struct at " \o Clean(p) \o ")">> : p \in Places}, {<<"(lambda at /a/b.h:1:2)", "(lambda at /a/b.h:1:2)">>}) :
             Push(stack, Node("unq", a[1], D(a[2]), "yes"))
LibLambda == On("anonymous") /\ Len(stack) >= 1 /\ Top(1)[1].sort = "sig"
             /\ Push(Below(1), Node("unq", "{lambda" \o Top(1)[1].src \o "#3}", D("{lambda") \o Top(1)[1].doc \o D("#3}"), "yes"))

(* scopes *)
Unqualified(n) == n.sort = "opn" \/ (n.sort = "unq" /\ IsOpen(n))
Scope == On("scope") /\ Len(stack) >= 1 /\ Unqualified(Top(1)[1])
         /\ LET u == Top(1)[1]
                add == u.doc \o D("::")
                rest == Below(1) IN
            \E cv \in Pick(IF Random THEN {"", "", "", "~const", "`&", "~const~volatile`&&"} ELSE {""}) :   \* dropped when read
            /\ (u.sort = "opn" => cv = "")
            /\ IF rest # <<>> /\ Last(rest).sort = "path"
               THEN Push(Front(rest), [Last(rest) EXCEPT !.src = @ \o u.src \o cv \o "::", !.scopes = Append(@, add)])
               ELSE Push(rest, [sort |-> "path", src |-> u.src \o cv \o "::", scopes |-> <<add>>, rooted |-> FALSE])
FunScope == On("funscope") /\ Len(stack) >= 2 /\ Top(1)[1].sort = "sig" /\ IsOpen(Top(1)[1]) /\ Unqualified(Top(2)[1])
         /\ LET s == Top(1)[1]
                u == Top(2)[1]
                add == u.doc \o s.doc \o D("::")
                rest == Below(2) IN
            IF rest # <<>> /\ Last(rest).sort = "path"
            THEN Push(Front(rest), [Last(rest) EXCEPT !.src = @ \o u.src \o s.src \o "`::", !.scopes = Append(@, add)])
            ELSE Push(rest, [sort |-> "path", src |-> u.src \o s.src \o "`::", scopes |-> <<add>>, rooted |-> FALSE])
Root == On("root") /\ \/ Push(stack, [sort |-> "path", src |-> "::", scopes |-> <<>>, rooted |-> TRUE])
Qualified == On("qualified") /\ Len(stack) >= 1 /\ Top(1)[1].sort \in {"unq", "opn"}
             /\ LET u == Top(1)[1] rest == Below(1) IN
                IF rest # <<>> /\ Last(rest).sort = "path"
                THEN LET p == Last(rest) IN Push(Front(rest), Node("name", p.src \o u.src, <<Path(p.rooted, p.scopes)>> \o u.doc, u.open))
                ELSE Push(rest, Node("name", u.src, u.doc, u.open))

(* types *)
Builtins == {<<"int", "int">>, <<"unsigned", "unsigned int">>, <<"long~unsigned~int", "unsigned long">>, <<"char", "char">>,
             <<"signed~char", "signed char">>, <<"long~long", "long long">>, <<"double~long", "long double">>, <<"short~int", "short">>,
             <<"unsigned~__int128", "unsigned __int128">>, <<"_Complex~float", "float _Complex">>, <<"auto:7", "auto:7">>}
Builtin == On("builtin") /\ \E b \in Some(Builtins, {<<"unsigned", "unsigned int">>}) : Push(stack, TypeNode(b[1], D(b[2]), <<>>, "", "yes"))
NamedType == On("type") /\ Len(stack) >= 1 /\ Top(1)[1].sort = "name" /\ \E kw \in Pick(IF Random THEN {"", "", "", "typename~", "struct~"} ELSE {""}) :
             LET n == Top(1)[1] IN Push(Below(1), TypeNode(kw \o n.src, n.doc, <<>>, "", n.open))
Qualify == On("cv") /\ Len(stack) >= 1 /\ Top(1)[1].sort = "type" /\ Top(1)[1].last = "" /\ \E q \in Some({<<"const~", "const ">>, <<"volatile~const~", "const volatile ">>}, {<<"volatile~const~", "const volatile ">>}) :
           LET t == Top(1)[1] IN Push(Below(1), [t EXCEPT !.src = q[1] \o @, !.doc = D(q[2]) \o @, !.last = "cv"])
Attributed == On("attribute") /\ Len(stack) >= 2 /\ Value(Top(2)[1]) /\ IsOpen(Top(2)[1]) /\ Top(1)[1].sort = "type" /\ Top(1)[1].last # "attr" /\ Top(1)[1].decls = <<>>
              /\ LET v == Top(2)[1] t == Top(1)[1] IN
                 Push(Below(2), [t EXCEPT !.src = "__attribute__((`" \o v.src \o "`))`" \o @, !.last = "attr",
                                          !.doc = D("__attribute__(") \o <<Slice("(", <<Doc(v)>>, ", ", ")")>> \o D(") ") \o @])
Declare(t, src, doc, last, open) == [t EXCEPT !.src = @ \o src, !.decls = Append(@, doc), !.last = last, !.open = open]
Openness(t) == t.sort = "type" /\ IsOpen(t)
Pointer == On("pointer") /\ Len(stack) >= 1 /\ Openness(Top(1)[1]) /\ \E q \in Some({<<"`*", "*">>, <<"`*`const~", "* const">>, <<"~*~restrict~", "* restrict">>,
                <<"`*`volatile~__restrict~const~", "* const volatile restrict">>}, {<<"`*", "*">>, <<"`*`const~", "* const">>}) :
           Push(Below(1), Declare(Top(1)[1], q[1], D(q[2]), "ptr", "yes"))
(* qualifiers after a type are kept apart from those before *)
Qualifier == On("pointer") /\ Len(stack) >= 1 /\ Openness(Top(1)[1]) /\ Top(1)[1].last \notin {"ptr", "trailcv"}
             /\ Push(Below(1), Declare(Top(1)[1], "~const~", D(" const"), "trailcv", "yes"))
Reference == On("reference") /\ Len(stack) >= 1 /\ Openness(Top(1)[1]) /\ Top(1)[1].last # "ref" /\ \E r \in Some({"&", "&&"}, {"&&"}) :
             Push(Below(1), Declare(Top(1)[1], "`" \o r, D(r), "ref", "yes"))
Array == On("array") /\ Len(stack) >= 1 /\ Openness(Top(1)[1]) /\ Push(Below(1), Declare(Top(1)[1], "`[`]", D("[]"), "arr", "yes"))
ArrayOf == On("array") /\ Len(stack) >= 2 /\ Openness(Top(2)[1]) /\ Value(Top(1)[1])
           /\ Push(Below(2), Declare(Top(2)[1], "`[`" \o Top(1)[1].src \o "`]", D("[") \o Doc(Top(1)[1]) \o D("]"), "arr", "yes"))
VectorOf == On("vector") /\ Len(stack) >= 2 /\ Openness(Top(2)[1]) /\ Value(Top(1)[1])
           /\ Push(Below(2), Declare(Top(2)[1], "~__vector(" \o Top(1)[1].src \o ")", D(" __vector(") \o Doc(Top(1)[1]) \o D(")"), "vec", "yes"))
MemberPointer == On("memberptr") /\ Len(stack) >= 2 /\ Openness(Top(2)[1]) /\ Top(1)[1].sort = "path" /\ Top(1)[1].scopes # <<>>
           /\ ~Starts(Top(1)[1].src, "(anonymous)")   \* taken for a parameter
           /\ LET p == Top(1)[1] IN Push(Below(2), Declare(Top(2)[1], "~" \o p.src \o "*", D(" ") \o <<Path(p.rooted, p.scopes)>> \o D("*"), "ptr", "yes"))
Parenthesized == On("paren") /\ Len(stack) >= 1 /\ Openness(Top(1)[1]) /\ \E q \in Some({<<"`(`*`)", <<D("*")>>>>, <<"`(`&&`)", <<D("&&")>>>>, <<"`(`*const`*`&`)", <<D("* const"), D("*"), D("&")>>>>}, {<<"`(`*`)", <<D("*")>>>>}) :
           Push(Below(1), Declare(Top(1)[1], q[1], D(" (") \o <<Slice("", q[2], "", "")>> \o D(")"), "paren", "yes"))
Function == On("function") /\ Len(stack) >= 2 /\ Openness(Top(2)[1]) /\ Top(1)[1].sort = "sig"
            /\ Push(Below(2), Declare(Top(2)[1], "`" \o Top(1)[1].src, Top(1)[1].doc, "fn", Closed(Top(1)[1])))

(* function signatures *)
IsType(n) == n.sort = "type" /\ n.open # "op"
Signature == On("sig") /\ \E k \in Pick(0..2), variadic \in Pick(IF Random THEN {TRUE, FALSE, FALSE} ELSE BOOLEAN) :
   /\ Len(stack) >= k /\ All(Top(k), IsType)
   /\ Push(Below(k), Node("sig", "(`" \o Sources(Top(k)) \o (IF ~variadic THEN "" ELSE IF k = 0 THEN "..." ELSE "`,`...") \o (IF k = 0 /\ ~variadic THEN "" ELSE "`") \o ")",
                          <<Params(Docs(Top(k)), variadic)>>, "yes"))
(* an ABI tag comes first, qualifiers follow, in this order *)
Abi == On("sigextra") /\ Len(stack) >= 1 /\ Top(1)[1].sort = "sig" /\ Top(1)[1].doc[1].k = "params"
       /\ Push(Below(1), [Top(1)[1] EXCEPT !.src = "[abi:cxx11]" \o @, !.doc = D("[abi:cxx11]") \o @])
SigCv == On("sigextra") /\ Len(stack) >= 1 /\ Top(1)[1].sort = "sig" /\ IsOpen(Top(1)[1]) /\ Last(Top(1)[1].doc).k = "params"
         /\ \E q \in Some({<<"`const", " const">>, <<"`volatile~const", " const volatile">>, <<"`&", " &">>, <<"~const`&&", " const &&">>}, {<<"~const`&&", " const &&">>}) :
            Push(Below(1), [Top(1)[1] EXCEPT !.src = @ \o q[1], !.doc = @ \o D(q[2])])
NoExcept == On("sigextra") /\ Len(stack) >= 1 /\ Top(1)[1].sort = "sig" /\ IsOpen(Top(1)[1])
            /\ Push(Below(1), [Top(1)[1] EXCEPT !.src = @ \o "~noexcept", !.doc = @ \o D(" noexcept"), !.open = "no"])
NoExceptIf == On("sigextra") /\ Len(stack) >= 2 /\ Top(2)[1].sort = "sig" /\ IsOpen(Top(2)[1]) /\ Value(Top(1)[1])
            /\ Push(Below(2), [Top(2)[1] EXCEPT !.src = @ \o "~noexcept(`" \o Top(1)[1].src \o "`)", !.open = "no",
                                                !.doc = @ \o D(" noexcept(") \o Doc(Top(1)[1]) \o D(")")])
Returns == On("sigextra") /\ Len(stack) >= 2 /\ Top(2)[1].sort = "sig" /\ IsOpen(Top(2)[1]) /\ Top(1)[1].sort = "type"
           /\ Push(Below(2), [Top(2)[1] EXCEPT !.src = @ \o "`->`" \o Top(1)[1].src, !.open = Closed(Top(1)[1]), !.doc = @ \o D(" -> ") \o Doc(Top(1)[1])])

(* values *)
LiteralTable == {<<"1", "1">>, <<"42ul", "42">>, <<"-3", "-3">>, <<"'c'", "'c'">>, <<"u8'\\n'", "'\\n'">>,
                 <<"18446744073709551615", "18446744073709551615">>, <<"7_km", "7_km">>, <<"'\\x41'", "'A'">>}
Literal == On("literal") /\ \E l \in Pick({x \in LiteralTable : Literals = {} \/ x[1] \in Literals}) : Push(stack, ValNode("lit", l[1], D(l[2]), <<>>, "yes"))
NamedValue == On("value") /\ Len(stack) >= 1 /\ Top(1)[1].sort = "name" /\ Push(Below(1), ValNode("val", Top(1)[1].src, Top(1)[1].doc, <<>>, Top(1)[1].open))
ParenValue == On("value") /\ Len(stack) >= 1 /\ Top(1)[1].sort = "lit"
              /\ Push(Below(1), ValNode("lit", "(`" \o Top(1)[1].src \o "`)", D("(") \o Doc(Top(1)[1]) \o D(")"), <<>>, "yes"))
Unary == On("unary") /\ Len(stack) >= 1 /\ Top(1)[1].sort = "val" /\ \E u \in Some({"-", "!", "*", "&", "~", "++"}, {"-"}) :
         (u = "~" => SubSeq(Top(1)[1].src, 1, 1) \in {"(", "1", "4", "7", "-", "!", "*", "&"}) /\   \* others are destructors
         (SubSeq(u, 1, 1) # SubSeq(Top(1)[1].src, 1, 1)) /\   \* - -x is not --x
         Push(Below(1), ValNode("val", (IF u = "~" THEN ";" ELSE u) \o "`" \o Top(1)[1].src, D(u) \o Doc(Top(1)[1]), <<>>, Closed(Top(1)[1])))
Extend(v, src, doc, open) == [v EXCEPT !.src = @ \o src, !.trail = Append(@, doc), !.open = open]
IsOpenValue(n) == Value(n) /\ IsOpen(n)
Infix == {"+", "-", "*", "/", "==", "!=", "&&", "||", "<<", "%", "^", "=", "+=", "<<="}
Binary == On("binary") /\ Len(stack) >= 2 /\ IsOpenValue(Top(2)[1]) /\ Value(Top(1)[1]) /\ \E o \in Some(Infix, {"+"}) :
          Push(Below(2), Extend(Top(2)[1], "~" \o o \o "~" \o Top(1)[1].src, D(" " \o o \o " ") \o Doc(Top(1)[1]), Closed(Top(1)[1])))
Arrow == On("binary") /\ Len(stack) >= 2 /\ IsOpenValue(Top(2)[1]) /\ Value(Top(1)[1])
         /\ ~Starts(Top(1)[1].src, "*")   \* -> *x is not ->*x
         /\ Push(Below(2), Extend(Top(2)[1], "`->`" \o Top(1)[1].src, D("->") \o Doc(Top(1)[1]), Closed(Top(1)[1])))
Ternary == On("ternary") /\ Len(stack) >= 3 /\ IsOpenValue(Top(3)[1]) /\ Value(Top(2)[1]) /\ Value(Top(1)[1])
           /\ Push(Below(3), Extend(Top(3)[1], "`?~" \o Top(2)[1].src \o "~:~" \o Top(1)[1].src, D(" ? ") \o Doc(Top(2)[1]) \o D(" : ") \o Doc(Top(1)[1]), Closed(Top(1)[1])))
Call == On("call") /\ \E k \in Pick(0..2) :
   /\ Len(stack) > k /\ IsOpenValue(stack[Len(stack) - k]) /\ All(Top(k), LAMBDA n : Value(n) /\ n.open # "op")
   /\ Push(Below(k + 1), Extend(stack[Len(stack) - k], "`(`" \o Sources(Top(k)) \o (IF k = 0 THEN "" ELSE "`") \o ")", <<Slice("(", Docs(Top(k)), ", ", ")")>>, "yes"))
Index == On("index") /\ Len(stack) >= 2 /\ IsOpenValue(Top(2)[1]) /\ Value(Top(1)[1])
         /\ Push(Below(2), Extend(Top(2)[1], "`[`" \o Top(1)[1].src \o "`]", D("[") \o Doc(Top(1)[1]) \o D("]"), "yes"))
Member == On("member") /\ Len(stack) >= 2 /\ IsOpenValue(Top(2)[1]) /\ Top(1)[1].sort \in {"unq", "opn"}
          /\ Push(Below(2), Extend(Top(2)[1], "`.`" \o Top(1)[1].src, D(".") \o Top(1)[1].doc, Top(1)[1].open))
Expansion == On("member") /\ Len(stack) >= 1 /\ IsOpenValue(Top(1)[1]) /\ Push(Below(1), Extend(Top(1)[1], "~...", D("..."), "no"))
SizeOf == On("sizeof") /\ Len(stack) >= 1 /\ Top(1)[1].sort = "type" /\ \E f \in Some({"sizeof(", "declval("}, {"sizeof("}) :
          Push(Below(1), ValNode("val", f \o Top(1)[1].src \o ")", D(f) \o Doc(Top(1)[1]) \o D(")"), <<>>, "yes"))
New == On("new") /\ Len(stack) >= 2 /\ Top(2)[1].sort = "type" /\ Top(2)[1].decls = <<>> /\ IsOpen(Top(2)[1]) /\ Top(1)[1].sort = "lit" /\ \E r \in Pick({"", "::"}) :
       Push(Below(2), ValNode("val", r \o "new~" \o Top(2)[1].src \o "`(`" \o Top(1)[1].src \o "`)",
                              D(r \o "new ") \o Doc(Top(2)[1]) \o <<Slice("(", <<Doc(Top(1)[1])>>, ", ", ")")>>, <<>>, "no"))

(* what to start from, so that what contains something deep is deep because of it *)
DeepName == D("a") \o <<Slice("<", <<D("b") \o <<Slice("<", <<D("a")>>, ", ", ">")>> >>, ", ", ">")>>
DeepArgs == <<Slice("(", << D("b") \o <<Slice("", << <<Slice("(", << D("1") >>, ", ", ")")>> >>, "", "")>> >>, ", ", ")")>>
Leaves == { Node("unq", "a<`b<a>`>", DeepName, "yes"), TypeNode("a<b<`a`>>", DeepName, <<>>, "", "yes"), ValNode("val", "a(`b`(1`))", D("a"), <<DeepArgs>>, "yes"),
            Node("sig", "()", <<Params(<<>>, FALSE)>>, "yes"), TypeNode("int", D("int"), <<>>, "", "yes"), ValNode("lit", "1", D("1"), <<>>, "yes"),
            Node("id", "a", D("a"), "yes") }
Starts0 == IF "deep" \in Constructs THEN UNION {[1..n -> Leaves] : n \in 1..3} ELSE {<<>>}

Derive == \/ Identifier \/ Name \/ Destructor \/ Template \/ VoidTemplate \/ OperatorName \/ AllocName \/ OperatorTemplate \/ Conversion
          \/ Decltype \/ Anonymous \/ LibLambda \/ Scope \/ FunScope \/ Root \/ Qualified \/ Builtin \/ NamedType \/ Qualify \/ Attributed
          \/ Pointer \/ Qualifier \/ Reference \/ Array \/ ArrayOf \/ VectorOf \/ MemberPointer \/ Parenthesized \/ Function
          \/ Signature \/ Abi \/ SigCv \/ NoExcept \/ NoExceptIf \/ Returns
          \/ Literal \/ NamedValue \/ ParenValue \/ Unary \/ Binary \/ Arrow \/ Ternary \/ Call \/ Index \/ Member \/ Expansion \/ SizeOf \/ New

-----------------------------------------------------------------------------
(* The session *)
CanRead == Len(session) < MaxReads
Rarely(n) == Random => RandomElement(1..n) = 1
Read == /\ CanRead /\ Rarely(3) /\ Len(stack) >= 1 /\ (Random \/ Len(stack) = 1) /\ Top(1)[1].sort = "type"
        /\ session' = Append(session, [src |-> Top(1)[1].src, ok |-> TRUE, levels |-> Levels(Doc(Top(1)[1]))])
        /\ stack' = IF Random THEN Below(1) ELSE <<>>
        /\ nops' = 0
(* the same name with something wrong at its end or start *)
Spoil == /\ CanRead /\ Rarely(9) /\ Len(stack) >= 1 /\ Top(1)[1].sort = "type"
         /\ \E w \in Pick({<<"", ")">>, <<"", "@">>, <<"@", "">>, <<"", ">">>, <<")", "">>}) :
            /\ (w[2] = ">" => Top(1)[1].open # "op")
            /\ session' = Append(session, [src |-> w[1] \o Top(1)[1].src \o w[2], ok |-> FALSE, levels |-> <<>>])
         /\ UNCHANGED <<stack, nops>>
Unknown == /\ CanRead /\ Rarely(25) /\ session' = Append(session, [src |-> "<unknown>", ok |-> TRUE, levels |-> <<"<unknown>">>]) /\ UNCHANGED <<stack, nops>>
(* anything at all: what it gives must not depend on the session *)
Tokens == <<"a", "int", "const", "::", "<", ">", "(", ")", "[", "]", "{", "}", "*", "&", ",", "...", " ", "operator", "new", "decltype(", "'", "\"", "1", "-", "+", "?", ":",
            "(lambda at ", "/f.h:1:2", "sizeof(", "noexcept", "->", ".", "unsigned", "_Complex", "~", "__attribute__(", "é", "{lambda", "#1}", "[abi:", "99999999999999999999", "\\", "\\x", "'\\u110000'", "\\777'">>
Junk == /\ CanRead /\ Random /\ Rarely(20)
        /\ LET n == RandomElement(1..9) IN
           session' = Append(session, [src |-> FoldLeft(LAMBDA acc, i : acc \o Tokens[RandomElement(1..Len(Tokens))], "", [i \in 1..n |-> i]), ok |-> "any", levels |-> <<>>])
        /\ UNCHANGED <<stack, nops>>

(* start again, for lack of anything better to do *)
GiveUp == Random /\ stack # <<>> /\ CanRead /\ (nops = MaxOps \/ RandomElement(1..(IF Len(stack) = MaxStack THEN 4 ELSE 12)) = 1) /\ stack' = <<>> /\ nops' = 0 /\ UNCHANGED session
Wait == Random /\ UNCHANGED vars   \* random guards may happen to disable everything else

Init == stack \in Starts0 /\ session = <<>> /\ nops = 0
Next == Derive \/ Read \/ Spoil \/ Unknown \/ Junk \/ GiveUp \/ Wait
Spec == Init /\ [][Next]_vars
(* single names *)
NextOne == Derive \/ Read
SpecOne == Init /\ [][NextOne]_vars

-----------------------------------------------------------------------------
(* The levels of detail of a name: the last is complete, all before are not *)
DepthIsExact == \A i \in 1..Len(stack) : stack[i].sort = "type" =>
   LET d == Doc(stack[i]) n == Depth(d) IN
     /\ Show(d, n + 1) = Show(d, n)
     /\ \A j \in 0..(n - 1) : Show(d, j) # Show(d, n)
(* every level but the last shows an ellipsis *)
Emit == (session' # session /\ Len(session') = MaxReads) => PrintT(ToJson(session'))
=============================================================================
