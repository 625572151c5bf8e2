---------------------------- MODULE HGPLGrammar ----------------------------
(* The policy grammar, twice.                                                  *)
(*                                                                             *)
(* 1. Tree(toks): the tree of a token sequence, by splitting it at its last    *)
(*    OR outside parentheses, else at its last AND outside parentheses, else   *)
(*    by the shape of a single expression; Bad if there is none.  Nothing here *)
(*    looks like the recursive descent of the implementation.                  *)
(* 2. FirstBad(toks): a pushdown acceptor that gives the index of the first    *)
(*    token no policy can continue with (0 if the sequence is a policy).       *)
(* MCGrammar checks that the two agree on every short token sequence.          *)
(*                                                                             *)
(* node  [c |-> class, t |-> token kind, p |-> position, v |-> value,          *)
(*        k |-> children]                                                      *)
EXTENDS Integers, Sequences, HGPLLexer

Bad == [c |-> "bad"]
Node(cls, tok, kids) == [c |-> cls, t |-> tok.t, p |-> tok.p, v |-> tok.v, k |-> kids]

AtomKinds == {"INT", "FLOAT", "STRING", "NULL"}
AtomClass(t) == CASE t = "INT" -> "IntValNode" [] t = "FLOAT" -> "FloatValNode"
                  [] t = "STRING" -> "StringValNode" [] t = "NULL" -> "NullValNode"
AttClass(t) == CASE t = "USR_ATT" -> "UsrAttNode" [] t = "OBJ_ATT" -> "ObjAttNode"
                 [] t = "ADM_ATT" -> "AdmAttNode" [] t = "ENV_ATT" -> "EnvAttNode"
                 [] t = "CON_ATT" -> "ConAttNode"

(* depth of parentheses before each token *)
RECURSIVE DepthsFrom(_, _, _, _)
DepthsFrom(toks, i, d, acc) ==
  IF i > Len(toks) THEN acc
  ELSE CASE toks[i].t = "LPARN" -> DepthsFrom(toks, i + 1, d + 1, Append(acc, d))
         [] toks[i].t = "RPARN" -> DepthsFrom(toks, i + 1, d - 1, Append(acc, d - 1))
         [] OTHER -> DepthsFrom(toks, i + 1, d, Append(acc, d))
Depths(toks) == DepthsFrom(toks, 1, 0, <<>>)

RECURSIVE LastTop(_, _, _, _, _, _)
LastTop(toks, dep, i, j, d, word) ==       \* last operator word in i..j at depth d, 0 if none
  IF j < i THEN 0
  ELSE IF dep[j] = d /\ toks[j].t = "BOOL_OP" /\ toks[j].v[2] = word THEN j
  ELSE LastTop(toks, dep, i, j - 1, d, word)

(* operand of a comparison: attribute, atomic constant, or set *)
SetTree(toks, i, j) ==
  IF j = i + 1 THEN Node("SetNode", toks[i], <<>>)
  ELSE IF (j - i) % 2 = 0                  \* { a , a , a }
          /\ \A m \in (i + 1)..(j - 1) : IF (m - i) % 2 = 1 THEN toks[m].t \in AtomKinds ELSE toks[m].t = "COMMA"
       THEN Node("SetNode", toks[i],
                 [n \in 1..((j - i) \div 2) |-> LET a == toks[i + 2 * n - 1] IN Node(AtomClass(a.t), a, <<>>)])
       ELSE Bad

VarTree(toks, i, j) ==
  IF i > j THEN Bad
  ELSE IF i = j THEN IF toks[i].t \in AttKinds THEN Node(AttClass(toks[i].t), toks[i], <<>>)
                     ELSE IF toks[i].t \in AtomKinds THEN Node(AtomClass(toks[i].t), toks[i], <<>>)
                     ELSE Bad
  ELSE IF toks[i].t = "LSET" /\ toks[j].t = "RSET" THEN SetTree(toks, i, j)
  ELSE Bad

OpsIn(toks, i, j) == {m \in i..j : toks[m].t = "OP"}

RECURSIVE PolicyTree(_, _, _, _, _), TermTree(_, _, _, _, _), ExpTree(_, _, _, _, _)
PolicyTree(toks, dep, i, j, d) ==
  IF i > j THEN Bad
  ELSE LET m == LastTop(toks, dep, i, j, d, "OR")
       IN  IF m = 0 THEN TermTree(toks, dep, i, j, d)
           ELSE LET l == PolicyTree(toks, dep, i, m - 1, d)
                    r == TermTree(toks, dep, m + 1, j, d)
                IN  IF l = Bad \/ r = Bad THEN Bad ELSE Node("BoolOpNode", toks[m], <<l, r>>)

TermTree(toks, dep, i, j, d) ==
  IF i > j THEN Bad
  ELSE LET m == LastTop(toks, dep, i, j, d, "AND")
       IN  IF m = 0 THEN ExpTree(toks, dep, i, j, d)
           ELSE LET l == TermTree(toks, dep, i, m - 1, d)
                    r == ExpTree(toks, dep, m + 1, j, d)
                IN  IF l = Bad \/ r = Bad THEN Bad ELSE Node("BoolOpNode", toks[m], <<l, r>>)

ExpTree(toks, dep, i, j, d) ==
  IF i > j THEN Bad
  ELSE CASE toks[i].t = "NOT_OP" ->
              LET s == IF \/ i + 1 = j /\ (toks[j].t = "BOOL" \/ toks[j].t \in AttKinds)
                          \/ i + 1 < j /\ toks[i + 1].t = "LPARN"
                       THEN ExpTree(toks, dep, i + 1, j, d) ELSE Bad
              IN  IF s = Bad THEN Bad ELSE Node("NotNode", toks[i], <<s>>)
         [] toks[i].t = "LPARN" -> IF toks[j].t = "RPARN" THEN PolicyTree(toks, dep, i + 1, j - 1, d + 1) ELSE Bad
         [] i = j -> IF toks[i].t = "BOOL" THEN Node("BoolValNode", toks[i], <<>>)
                     ELSE IF toks[i].t \in AttKinds THEN Node(AttClass(toks[i].t), toks[i], <<>>)
                     ELSE Bad
         [] OTHER ->
              LET ops == OpsIn(toks, i, j)
              IN  IF \E m \in ops : ops = {m}
                  THEN LET m == CHOOSE m \in ops : TRUE
                           l == VarTree(toks, i, m - 1)
                           r == VarTree(toks, m + 1, j)
                       IN  IF l = Bad \/ r = Bad THEN Bad ELSE Node("OpNode", toks[m], <<l, r>>)
                  ELSE Bad

(* A whole token list is START policy END *)
Tree(toks) ==
  IF Len(toks) >= 3 /\ toks[1].t = "START" /\ toks[Len(toks)].t = "END"
  THEN PolicyTree(toks, Depths(toks), 2, Len(toks) - 1, 0)
  ELSE Bad

(* A tree as the sequence of its nodes, each before its children, which it     *)
(* gives the number of: what the recorded trees look like.                     *)
RECURSIVE FlatAll(_, _)
FlatAll(todo, acc) ==
  IF todo = <<>> THEN acc
  ELSE LET n == Head(todo)
       IN  FlatAll(n.k \o Tail(todo), Append(acc, [c |-> n.c, t |-> n.t, p |-> n.p, v |-> n.v, k |-> Len(n.k)]))
Flat(tree) == FlatAll(<<tree>>, <<>>)

(* ---- the acceptor ---- *)
(* states: exp (an expression has to start), not (after NOT), att (after an    *)
(* attribute that may be an operand or a truth value), opn (after an operand,  *)
(* an operator has to follow), var (after the operator), end (after a whole    *)
(* expression), se (after '{'), sa (after an atom in a set), sc (after a comma)*)
(* side: "l" or "r", the side of the comparison a set is on                    *)
AccStep(q, tok) ==
  LET t == tok.t
      go(s) == [q EXCEPT !.s = s]
      fail == [q EXCEPT !.s = "fail"]
  IN  CASE q.s = "start" -> IF t = "START" THEN go("exp") ELSE fail
        [] q.s = "exp" -> (CASE t = "NOT_OP" -> go("not")
                            [] t = "LPARN" -> [go("exp") EXCEPT !.d = q.d + 1]
                            [] t = "BOOL" -> go("end")
                            [] t \in AttKinds -> go("att")
                            [] t \in AtomKinds -> go("opn")
                            [] t = "LSET" -> [go("se") EXCEPT !.side = "l"]
                            [] OTHER -> fail)
        [] q.s = "not" -> (CASE t = "LPARN" -> [go("exp") EXCEPT !.d = q.d + 1]
                            [] t = "BOOL" \/ t \in AttKinds -> go("end")
                            [] OTHER -> fail)
        [] q.s \in {"att", "end"} ->
                         (CASE t = "OP" /\ q.s = "att" -> go("var")
                            [] t = "BOOL_OP" -> go("exp")
                            [] t = "RPARN" /\ q.d > 0 -> [go("end") EXCEPT !.d = q.d - 1]
                            [] t = "END" /\ q.d = 0 -> go("acc")
                            [] OTHER -> fail)
        [] q.s = "opn" -> IF t = "OP" THEN go("var") ELSE fail
        [] q.s = "var" -> (CASE t \in AttKinds \/ t \in AtomKinds -> go("end")
                            [] t = "LSET" -> [go("se") EXCEPT !.side = "r"]
                            [] OTHER -> fail)
        [] q.s \in {"se", "sa", "sc"} ->
                         (CASE t = "RSET" /\ q.s # "sc" -> go(IF q.side = "l" THEN "opn" ELSE "end")
                            [] t = "COMMA" /\ q.s = "sa" -> go("sc")
                            [] t \in AtomKinds /\ q.s # "sa" -> go("sa")
                            [] OTHER -> fail)
        [] OTHER -> fail

AccInit == [s |-> "start", d |-> 0, side |-> "l"]

RECURSIVE FirstBadFrom(_, _, _)
FirstBadFrom(toks, i, q) ==
  IF i > Len(toks) THEN IF q.s = "acc" THEN 0 ELSE Len(toks) + 1
  ELSE LET n == AccStep(q, toks[i]) IN IF n.s = "fail" THEN i ELSE FirstBadFrom(toks, i + 1, n)
FirstBad(toks) == FirstBadFrom(toks, 1, AccInit)
=============================================================================
