----------------------------- MODULE HGPLCodec -----------------------------
(* The binary form of policy trees: a header (version, number of nodes, id of  *)
(* the root) and for every node, in any order, its id, node kind, token kind,  *)
(* position, size of the value, number of children, the value and the ids of   *)
(* the children; all numbers unsigned, little endian.                          *)
(* Nodes in the form of HGPLGrammar!Flat, with raw values:                     *)
(*   INT <<"i", sign, digits>>, FLOAT <<"f", 8 bytes>> (or 4, as older          *)
(*   encoders wrote), text <<"t", UTF-8 bytes>>, none <<"-">>                   *)
EXTENDS Bytes, FiniteSets, TLC

NodeClass == (11 :> "OpNode") @@ (12 :> "BoolOpNode") @@ (13 :> "NotNode") @@ (21 :> "BoolValNode")
             @@ (31 :> "IntValNode") @@ (32 :> "FloatValNode") @@ (33 :> "StringValNode") @@ (35 :> "NullValNode")
             @@ (41 :> "SetNode") @@ (51 :> "UsrAttNode") @@ (52 :> "ObjAttNode") @@ (53 :> "AdmAttNode")
             @@ (54 :> "ConAttNode") @@ (55 :> "EnvAttNode")

Invert(b) == [i \in 1..Len(b) |-> 255 - b[i]]
RECURSIVE PlusOne(_, _)
PlusOne(b, i) == IF i > Len(b) THEN b ELSE IF b[i] < 255 THEN [b EXCEPT ![i] = @ + 1] ELSE PlusOne([b EXCEPT ![i] = 0], i + 1)
SignedInt(b) == IF b[Len(b)] >= 128 THEN <<"i", 1, BytesToDigits(PlusOne(Invert(b), 1))>> ELSE <<"i", 0, BytesToDigits(b)>>

(* single precision, widened to double *)
Widen(b) ==
  LET s == b[4] \div 128
      e == (b[4] % 128) * 2 + b[3] \div 128
      m == (b[3] % 128) * 65536 + b[2] * 256 + b[1]
      x == IF e = 0 /\ m = 0 THEN 0 ELSE e + 896
  IN  <<0, 0, 0, (m % 8) * 32, (m \div 8) % 256, (m \div 2048) % 256, (x % 16) * 16 + m \div 524288, s * 128 + x \div 16>>

Short == [k |-> "short"]
Odd == [k |-> "odd"]

TokenKind == <<"OP", "BOOL_OP", "NOT_OP", "USR_ATT", "OBJ_ATT", "ENV_ATT", "ADM_ATT", "CON_ATT", "UNK_ATT", "UNK_ID", "NULL",
               "BOOL", "INT", "FLOAT", "STRING", "LSET", "RSET", "LPARN", "RPARN", "COMMA", "START", "END">>

ReadNode(b, i) ==         \* node at index i
  IF i + 9 > Len(b) THEN Short
  ELSE LET vs == U16(b, i + 6)
           nc == U16(b, i + 8)
           v0 == i + 10
           c0 == v0 + vs
           nx == c0 + 2 * nc
           raw == SubSeq(b, v0, c0 - 1)
           tt == b[i + 3]
       IN  IF nx - 1 > Len(b) THEN Short
           ELSE IF tt \notin DOMAIN TokenKind \/ b[i + 2] \notin DOMAIN NodeClass THEN Odd
           ELSE IF (TokenKind[tt] = "FLOAT" /\ vs \notin {4, 8}) \/ (TokenKind[tt] = "INT" /\ vs = 0) THEN Odd
           ELSE [k |-> "node", next |-> nx, id |-> U16(b, i), c |-> NodeClass[b[i + 2]], t |-> TokenKind[tt],
                 p |-> U16(b, i + 4), kids |-> [n \in 1..nc |-> U16(b, c0 + 2 * (n - 1))],
                 v |-> CASE TokenKind[tt] = "INT" -> SignedInt(raw)
                         [] TokenKind[tt] = "FLOAT" -> <<"f", IF vs = 4 THEN Widen(raw) ELSE raw>>
                         [] TokenKind[tt] = "STRING" \/ vs > 0 -> <<"t", raw>>
                         [] OTHER -> <<"-">>]

RECURSIVE ReadNodes(_, _, _, _)
ReadNodes(b, i, n, acc) ==
  IF n = 0 THEN [k |-> "ok", nodes |-> acc, next |-> i]
  ELSE LET r == ReadNode(b, i) IN IF r.k # "node" THEN r ELSE ReadNodes(b, r.next, n - 1, Append(acc, r))

ById(nodes, id) == CHOOSE i \in 1..Len(nodes) : nodes[i].id = id

RECURSIVE Walk(_, _, _)    \* preorder from a list of ids
Walk(nodes, ids, acc) ==
  IF ids = <<>> \/ Len(acc) > Len(nodes) THEN acc
  ELSE LET n == nodes[ById(nodes, Head(ids))]
       IN  Walk(nodes, n.kids \o Tail(ids), Append(acc, [c |-> n.c, t |-> n.t, p |-> n.p, v |-> n.v, k |-> Len(n.kids)]))

(* [k |-> "tree", v |-> version, tree, count, rest] | short | odd              *)
Decode(b) ==
  IF Len(b) < 5 THEN Short
  ELSE LET n == U16(b, 2)
           r == ReadNodes(b, 6, n, <<>>)
           ids == {r.nodes[i].id : i \in 1..n}
       IN  IF r.k # "ok" THEN r
           ELSE IF Cardinality(ids) # n \/ U16(b, 4) \notin ids
                   \/ \E i \in 1..n : \E m \in 1..Len(r.nodes[i].kids) : r.nodes[i].kids[m] \notin ids
           THEN Odd
           ELSE LET w == Walk(r.nodes, <<U16(b, 4)>>, <<>>)
                IN  IF Len(w) # n THEN Odd
                    ELSE [k |-> "tree", ver |-> b[1], tree |-> w, rest |-> Len(b) + 1 - r.next]
=============================================================================
