---------------------------- MODULE TraceSecrets ----------------------------
(* Recorded operations with the secrets found in what they showed.             *)
EXTENDS HGAASecrets, TraceBase
VARIABLES c, l, st

CaseInit0(case) == Nothing
Of(q) == {q[i] : i \in 1..Len(q)}
Step0(case, s, ev) ==
  LET n == TLCEval(After(s, ev.op, [o \in Observers |-> Of(ev.shown[o])]))
  IN  IF Kept(n) THEN Ok(n) ELSE No(<<"shown", {<<o, n[o]>> : o \in {x \in Observers : n[x] # {}}}>>)
R == INSTANCE Runner WITH Cases <- TraceCases, CaseInit <- CaseInit0, Step <- Step0
Spec == R!RunSpec
=============================================================================
