---------------------------- MODULE TraceParser ----------------------------
(* Recorded runs of the parser.  A case has the text, or the token list given  *)
(* to the parser.  Event parse: got "ok" (tree), "err" (pos) or "other".       *)
EXTENDS HGPLGrammar, TraceBase
VARIABLES c, l, st

CaseInit0(case) == <<>>

SameNode(w, g) == /\ w.c = g.c /\ w.t = g.t /\ w.p = g.p /\ w.k = g.k
                  /\ IF w.t = "FLOAT" /\ SigDigits(Tail(w.v)) > 15 THEN g.v[1] = "n" ELSE w.v = g.v
SameTree(w, g) == LET f == Flat(w) IN Len(f) = Len(g) /\ \A i \in 1..Len(f) : SameNode(f[i], g[i])

Step0(case, s, ev) ==
  LET lx == IF case.from = "text" THEN Lex(case.text) ELSE [toks |-> case.toks, err |-> -1]
      tr == Tree(lx.toks)
  IN  IF lx.err >= 0
      THEN IF ev.got = "lexerr" THEN Ok(s) ELSE No(<<"lexical error">>)
      ELSE IF tr # Bad
      THEN IF ev.got = "ok" /\ SameTree(tr, ev.tree) THEN Ok(s) ELSE No(<<"tree", Flat(tr)>>)
      ELSE LET fb == FirstBad(lx.toks)
               lim == IF fb > Len(lx.toks) THEN 0 ELSE lx.toks[fb].p
           IN  IF /\ ev.got = "err"
                  /\ \E i \in 1..Len(lx.toks) : lx.toks[i].p = ev.pos
                  /\ ev.pos <= lim
               THEN Ok(s) ELSE No(<<"syntax error at or before", lim>>)

R == INSTANCE Runner WITH Cases <- TraceCases, CaseInit <- CaseInit0, Step <- Step0
Spec == R!RunSpec
=============================================================================
