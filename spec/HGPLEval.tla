------------------------------ MODULE HGPLEval ------------------------------
(* What a policy decides, given a table of attributes.                         *)
(* Value of a node:                                                            *)
(*   <<"b", "T"|"F"|"U">>  truth value                                         *)
(*   <<"n", ..>>, <<"s", ..>>, <<"z">>, <<"S", set of atoms>>  constant        *)
(*   <<"A", value>>        usable attribute that is no truth value             *)
(* Eval gives [v |-> value, ap |-> positions of unusable attributes,           *)
(*   op |-> some comparison has operands that do not fit, e |-> evaluation     *)
(*   fails: something that is no truth value is used as one].                  *)
EXTENDS HGPLGrammar, HGPLSymbols

U == <<"b", "U">>
B(x) == <<"b", IF x THEN "T" ELSE "F">>

KNot(a) == CASE a = "T" -> "F" [] a = "F" -> "T" [] OTHER -> "U"
KAnd(a, b) == IF a = "F" \/ b = "F" THEN "F" ELSE IF a = "T" /\ b = "T" THEN "T" ELSE "U"
KOr(a, b) == KNot(KAnd(KNot(a), KNot(b)))

Fits(ty, v) == CASE ty \in {"INT", "FLOAT"} -> v[1] = "n"
                 [] ty = "STRING" -> v[1] = "s"
                 [] ty = "SET" -> v[1] = "L"
                 [] ty = "BOOL" -> v[1] = "b"
                 [] OTHER -> FALSE

AttValue(tab, n) ==                       \* <<"-">> if it cannot be used
  LET i == Find(tab, n.t, n.v[2])
  IN  IF i = 0 THEN <<"-">>
      ELSE IF ~Fits(tab[i].ty, tab[i].v) THEN <<"-">>
      ELSE IF tab[i].ty = "BOOL" THEN tab[i].v
      ELSE IF tab[i].ty = "SET" THEN <<"A", <<"S", Elems(tab[i].v[2])>>>>
      ELSE <<"A", tab[i].v>>

IsAttV(x) == x[1] = "A"
Plain(x) == IF IsAttV(x) THEN x[2] ELSE x
(* a single attribute value next to a set constant or an attribute stands for  *)
(* the set of it                                                               *)
AsSet(x, other) == IF IsAttV(x) /\ x[2][1] # "S" /\ (other[1] = "S" \/ IsAttV(other)) THEN <<"S", {x[2]}>>
                   ELSE Plain(x)

NoFit == <<"x">>
EqOp(l, r) == LET a == AsSet(l, r)
                  b == AsSet(r, l)
              IN  IF a[1] = b[1] /\ a[1] \in {"n", "s", "z", "S"} THEN B(a = b) ELSE NoFit
OrdOp(l, r, Rel(_, _)) == LET a == Plain(l)
                              b == Plain(r)
                          IN  IF a[1] = "n" /\ b[1] = "n" THEN B(Rel(Tail(a), Tail(b))) ELSE NoFit
InOp(l, r) == LET a == Plain(l)
                  b == AsSet(r, l)
              IN  IF b[1] # "S" THEN NoFit
                  ELSE IF a[1] \in {"n", "s", "z"} THEN B(a \in b[2])
                  ELSE IF a[1] = "S" THEN B(a[2] \cap b[2] # {})
                  ELSE NoFit
SubsetOp(l, r) == LET a == AsSet(l, r)
                      b == AsSet(r, l)
                  IN  IF a[1] = "S" /\ b[1] = "S" THEN B(a[2] \subseteq b[2]) ELSE NoFit

Lt(a, b) == NumLess(a, b)
Gt(a, b) == NumLess(b, a)
Le(a, b) == a = b \/ NumLess(a, b)
Ge(a, b) == a = b \/ NumLess(b, a)

Compare(op, l, r) ==
  CASE op = "=" -> EqOp(l, r)
    [] op = "!=" -> LET x == EqOp(l, r) IN IF x = NoFit THEN x ELSE <<"b", KNot(x[2])>>
    [] op = "<" -> OrdOp(l, r, Lt)
    [] op = ">" -> OrdOp(l, r, Gt)
    [] op = "<=" -> OrdOp(l, r, Le)
    [] op = ">=" -> OrdOp(l, r, Ge)
    [] op = "IN" -> InOp(l, r)
    [] op = "SUBSET" -> SubsetOp(l, r)

Res(v, ap, op, e) == [v |-> v, ap |-> ap, op |-> op, e |-> e]
NoTruth(x) == x.v[1] # "b"

RECURSIVE Eval(_, _)
Eval(tab, n) ==
  CASE n.c = "BoolValNode" -> Res(<<"b", IF n.v[2] = "TRUE" THEN "T" ELSE IF n.v[2] = "FALSE" THEN "F" ELSE "U">>, {}, FALSE, FALSE)
    [] n.c = "NullValNode" -> Res(<<"z">>, {}, FALSE, FALSE)
    [] n.c \in {"IntValNode", "FloatValNode", "StringValNode"} -> Res(n.v, {}, FALSE, FALSE)
    [] n.c = "SetNode" -> Res(<<"S", {(IF n.k[i].c = "NullValNode" THEN <<"z">> ELSE n.k[i].v) : i \in 1..Len(n.k)}>>, {}, FALSE, FALSE)
    [] n.t \in AttKinds -> LET v == AttValue(tab, n)
                           IN  IF v = <<"-">> THEN Res(U, {n.p}, FALSE, FALSE) ELSE Res(v, {}, FALSE, FALSE)
    [] n.c = "NotNode" -> LET x == Eval(tab, n.k[1])
                          IN  IF NoTruth(x) THEN [x EXCEPT !.v = U, !.e = TRUE] ELSE [x EXCEPT !.v = <<"b", KNot(x.v[2])>>]
    [] n.c = "BoolOpNode" -> LET x == Eval(tab, n.k[1])
                                 y == Eval(tab, n.k[2])
                                 e == NoTruth(x) \/ NoTruth(y)
                             IN  Res(IF e THEN U ELSE <<"b", IF n.v[2] = "AND" THEN KAnd(x.v[2], y.v[2]) ELSE KOr(x.v[2], y.v[2])>>,
                                     x.ap \cup y.ap, x.op \/ y.op, e \/ x.e \/ y.e)
    [] n.c = "OpNode" -> LET x == Eval(tab, n.k[1])
                             y == Eval(tab, n.k[2])
                             ap == x.ap \cup y.ap
                             r == IF x.v = U \/ y.v = U THEN U ELSE Compare(n.v[2], x.v, y.v)
                         IN  IF r = NoFit THEN Res(U, ap, TRUE, FALSE) ELSE Res(r, ap, FALSE, FALSE)

(* the whole policy *)
Decide(tab, tree) == LET x == Eval(tab, tree) IN IF NoTruth(x) THEN [x EXCEPT !.e = TRUE] ELSE x

RECURSIVE AttPos(_, _)
AttPos(todo, acc) ==
  IF todo = <<>> THEN acc
  ELSE LET n == Head(todo) IN AttPos(n.k \o Tail(todo), IF n.t \in AttKinds THEN acc \cup {n.p} ELSE acc)
=============================================================================
