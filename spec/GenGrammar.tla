----------------------------- MODULE GenGrammar -----------------------------
(* Every token sequence the acceptor can reach (sentences, prefixes of         *)
(* sentences, and both with one token that does not fit), for replay.          *)
EXTENDS MCGrammar, Json
Emit == PrintT("GEN|" \o ToJson([i \in 1..(Len(toks) - 1) |-> <<toks[i + 1].t, toks[i + 1].v>>]))
=============================================================================
