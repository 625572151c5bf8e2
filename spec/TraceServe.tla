----------------------------- MODULE TraceServe -----------------------------
(* Recorded starts of the server, as a program of its own or within another.   *)
EXTENDS HGAAServe, TraceBase, FiniteSets
VARIABLES c, l, st

CaseInit0(case) == [service |-> case.service, client |-> <<>>]
Of(q) == {q[i] : i \in 1..Len(q)}
Step0(case, s, ev) ==
  IF ~ev.ok THEN No("starts")
  ELSE IF Of(ev.offered) # Offered(s) \/ Len(ev.offered) # Cardinality(Offered(s)) THEN No(<<"offers", Offered(s)>>)
  ELSE IF ev.missing # <<>> THEN No("the services that are offered are there")
  ELSE IF ~ev.main THEN IF ev.served = <<>> THEN Ok(s) ELSE No("does not listen by itself")
  ELSE IF ev.served = <<[host |-> Host(s), port |-> Port(s), same |-> TRUE]>> THEN Ok(s) ELSE No(<<"listens", Host(s), Port(s)>>)
R == INSTANCE Runner WITH Cases <- TraceCases, CaseInit <- CaseInit0, Step <- Step0
Spec == R!RunSpec
=============================================================================
