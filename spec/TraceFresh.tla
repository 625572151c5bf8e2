----------------------------- MODULE TraceFresh -----------------------------
(* What two worlds drew that share everything that can be known: a and b.      *)
EXTENDS HGAAFresh, TraceBase
VARIABLES c, l, st

CaseInit0(case) == Fresh
Step0(case, s, ev) ==
  IF ev.a = <<>> \/ ev.b = <<>> THEN No(<<"nothing drawn", ev.kind>>)
  ELSE IF ~ Free(s, ev.kind, ev.a) THEN No(<<"near one drawn before", ev.kind>>)
  ELSE LET n == Drawn(s, ev.kind, ev.a)
       IN  IF ~ Free(n, ev.kind, ev.b) THEN No(<<"can be guessed", ev.kind>>)
           ELSE LET m == TLCEval(Drawn(n, ev.kind, ev.b))
                IN  IF Stuck(m, ev.kind, Len(ev.a)) # {} THEN No(<<"always the same", ev.kind, Stuck(m, ev.kind, Len(ev.a))>>) ELSE Ok(m)
R == INSTANCE Runner WITH Cases <- TraceCases, CaseInit <- CaseInit0, Step <- Step0
Spec == R!RunSpec
=============================================================================
