--------------------------- MODULE FormulaDomain ---------------------------
EXTENDS HGPLEval, FiniteSets, TLC
AttNode(pos, nm) == [c |-> "UsrAttNode", t |-> "USR_ATT", p |-> pos, v |-> <<"id", <<nm>>>>, k |-> <<>>]

(* formulas over three truth-valued attributes x y z and the constants *)
Vars3 == {120, 121, 122}
Leaf(n) == AttNode(0, n)
KonstNode(w) == [c |-> "BoolValNode", t |-> "BOOL", p |-> 0, v |-> <<"w", w>>, k |-> <<>>]
NotN(a) == [c |-> "NotNode", t |-> "NOT_OP", p |-> 0, v |-> <<"w", "NOT">>, k |-> <<a>>]
BoolN(op, a, b) == [c |-> "BoolOpNode", t |-> "BOOL_OP", p |-> 0, v |-> <<"w", op>>, k |-> <<a, b>>]
WithNot(S) == S \cup {NotN(a) : a \in S}
F1 == WithNot({Leaf(n) : n \in Vars3} \cup {KonstNode("UNDEF"), KonstNode("FALSE")})
Bin(A, C) == {BoolN(op, a, b) : op \in {"AND", "OR"}, a \in A, b \in C}
F2 == WithNot(Bin(F1, F1))
CONSTANT Deep
F3 == IF Deep THEN Bin(F2, F1) \cup Bin(F1, F2) ELSE {}

BoolTab(f) == [i \in 1..3 |-> [cat |-> "USR_ATT", name |-> <<119 + i>>, ty |-> "BOOL", v |-> <<"b", f[i]>>]]
Assign3 == [1..3 -> {"T", "F", "U"}]
=============================================================================
