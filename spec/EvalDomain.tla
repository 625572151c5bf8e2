----------------------------- MODULE EvalDomain -----------------------------
(* Small domains of operands, attributes and formulas, for checking the        *)
(* semantics and for generating what is replayed into the implementation.      *)
EXTENDS HGPLEval, FiniteSets, TLC

Nm(s, i, f) == <<"n", s, i, f>>
Zero == Nm(0, <<>>, <<>>)
One == Nm(0, <<1>>, <<>>)
Ten == Nm(0, <<1, 0>>, <<>>)
Half == Nm(0, <<>>, <<5>>)
OneHalf == Nm(0, <<1>>, <<5>>)
Minus == Nm(1, <<1>>, <<>>)
MinusHalf == Nm(1, <<>>, <<5>>)
Big == Nm(0, <<2, 1, 4, 7, 4, 8, 3, 6, 4, 8>>, <<>>)
Empty == <<"s", <<>>>>
SA == <<"s", <<97>>>>
SUp == <<"s", <<65>>>>
S1 == <<"s", <<49>>>>
Null == <<"z">>

Atoms == {Zero, One, Ten, Half, OneHalf, Minus, MinusHalf, Big, Empty, SA, SUp, S1, Null}
ListSeqs == {<<>>, <<One>>, <<Zero>>, <<SA>>, <<One, SA>>, <<SA, One>>, <<One, One>>, <<One, Ten>>, <<Null>>, <<Null, One>>, <<Empty>>,
             <<Half, One, SA>>, <<S1>>}

(* operands as they are written: [k |-> "c"] constants, [k |-> "a"] attributes *)
ConstOps == {[k |-> "c", v |-> a] : a \in Atoms} \cup {[k |-> "c", v |-> <<"L", s>>] : s \in ListSeqs}
AttOps == {[k |-> "a", ty |-> "INT", v |-> a] : a \in {One, Zero, OneHalf, Minus}}
          \cup {[k |-> "a", ty |-> "FLOAT", v |-> a] : a \in {One, Half}}
          \cup {[k |-> "a", ty |-> "STRING", v |-> a] : a \in {SA, Empty, S1}}
          \cup {[k |-> "a", ty |-> "SET", v |-> <<"L", s>>] : s \in {<<>>, <<One>>, <<SA, One>>, <<One, Ten>>, <<Null>>}}
          \cup {[k |-> "a", ty |-> "BOOL", v |-> <<"b", x>>] : x \in {"T", "F", "U"}}
BadAtts == {[k |-> "a", ty |-> "INT", v |-> SA], [k |-> "a", ty |-> "STRING", v |-> One], [k |-> "a", ty |-> "SET", v |-> One],
            [k |-> "a", ty |-> "BOOL", v |-> One], [k |-> "a", ty |-> "INT", v |-> <<"b", "T">>], [k |-> "a", ty |-> "INT", v |-> <<"none">>],
            [k |-> "a", ty |-> "BOOL", v |-> <<"none">>], [k |-> "a", ty |-> "UNKNOWN", v |-> One], [k |-> "a", ty |-> "CUSTOM", v |-> One],
            [k |-> "a", ty |-> "STRING", v |-> Null], [k |-> "a", ty |-> "INT", v |-> <<"L", <<One>>>>], [k |-> "a", ty |-> "none", v |-> One],
            [k |-> "a", ty |-> "SET", v |-> <<"none">>], [k |-> "a", ty |-> "STRING", v |-> <<"b", "T">>]}
Relations == {"=", "!=", "<", ">", "<=", ">=", "IN", "SUBSET"}

(* trees of operands, the attribute named by its side *)
AttNode(pos, nm) == [c |-> "UsrAttNode", t |-> "USR_ATT", p |-> pos, v |-> <<"id", <<nm>>>>, k |-> <<>>]
AtomNode(a, pos) == [c |-> IF a[1] = "z" THEN "NullValNode" ELSE IF a[1] = "s" THEN "StringValNode" ELSE "IntValNode",
                     t |-> "INT", p |-> pos, v |-> a, k |-> <<>>]
OperNode(o, pos, nm) == IF o.k = "a" THEN AttNode(pos, nm)
                        ELSE IF o.v[1] = "L" THEN [c |-> "SetNode", t |-> "LSET", p |-> pos, v |-> <<"-">>,
                                                   k |-> [i \in 1..Len(o.v[2]) |-> AtomNode(o.v[2][i], pos)]]
                        ELSE AtomNode(o.v, pos)
CmpNode(op, a, b) == [c |-> "OpNode", t |-> "OP", p |-> 2, v |-> <<"w", op>>, k |-> <<OperNode(a, 1, 108), OperNode(b, 3, 114)>>]
OperTab(a, b) == LET e(o, nm) == IF o.k = "a" /\ o.ty # "none" THEN <<[cat |-> "USR_ATT", name |-> <<nm>>, ty |-> o.ty, v |-> o.v]>> ELSE <<>>
                 IN  e(a, 108) \o e(b, 114)
Cmp(op, a, b) == Decide(OperTab(a, b), CmpNode(op, a, b))

=============================================================================
