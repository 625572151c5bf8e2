----------------------------- MODULE MCGrammar -----------------------------
(* Design check: over every token sequence of at most MaxLen tokens (one       *)
(* representative per kind) the acceptor and the tree builder agree, the tree  *)
(* keeps every token in order, and AND/OR nest as they should.                 *)
EXTENDS HGPLGrammar, FiniteSets, TLC
CONSTANT MaxLen
VARIABLES toks, q
vars == <<toks, q>>

Sym == {[t |-> "OP", v |-> <<"w", "=">>], [t |-> "BOOL_OP", v |-> <<"w", "AND">>],
        [t |-> "BOOL_OP", v |-> <<"w", "OR">>], [t |-> "NOT_OP", v |-> <<"w", "NOT">>],
        [t |-> "USR_ATT", v |-> <<"id", <<97>>>>], [t |-> "BOOL", v |-> <<"w", "TRUE">>],
        [t |-> "INT", v |-> <<"n", 0, <<1>>, <<>>>>], [t |-> "LSET", v |-> NoVal], [t |-> "RSET", v |-> NoVal],
        [t |-> "LPARN", v |-> NoVal], [t |-> "RPARN", v |-> NoVal], [t |-> "COMMA", v |-> NoVal]}

Init == toks = <<StartTok>> /\ q = AccStep(AccInit, StartTok)
Next == /\ Len(toks) <= MaxLen
        /\ q.s # "fail"                     \* sequences past the first bad token add nothing
        /\ \E s \in Sym : LET tok == [t |-> s.t, p |-> Len(toks), v |-> s.v]
                          IN  toks' = Append(toks, tok) /\ q' = AccStep(q, tok)
Spec == Init /\ [][Next]_vars

EndTok == [t |-> "END", p |-> Len(toks), v |-> NoVal]
Full == Append(toks, EndTok)

RECURSIVE Leaves(_)   \* token positions in the tree, parentheses and commas aside
LeavesAll(ks) == UNION {Leaves(ks[i]) : i \in 1..Len(ks)}
Leaves(n) == {n.p} \cup LeavesAll(n.k)

RECURSIVE Shape(_)    \* an OR below an AND, or an AND/OR to the right of its like, needs parentheses
Paren(n) == \E i \in 1..Len(Full) : Full[i].t = "LPARN" /\ Full[i].p < n.p
Shape(n) == /\ \A i \in 1..Len(n.k) : Shape(n.k[i])
            /\ n.c = "BoolOpNode" =>
                 /\ (n.v[2] = "AND" /\ \E i \in 1..2 : n.k[i].c = "BoolOpNode" /\ n.k[i].v[2] = "OR")
                      => \E i \in 1..Len(Full) : Full[i].t = "LPARN"
                 /\ (n.k[2].c = "BoolOpNode" /\ (n.v[2] = n.k[2].v[2] \/ n.v[2] = "AND"))
                      => \E i \in 1..Len(Full) : Full[i].t = "LPARN" /\ Full[i].p > n.p

Agree == (Tree(Full) = Bad) <=> (FirstBad(Full) # 0)
Keeps == Tree(Full) # Bad =>
           Leaves(Tree(Full)) = {toks[i].p : i \in {m \in 2..Len(toks) : toks[m].t \notin {"LPARN", "RPARN", "COMMA", "RSET"}}}
Grouped == Tree(Full) # Bad => Shape(Tree(Full))
=============================================================================
