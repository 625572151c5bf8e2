----------------------------- MODULE TraceConf -----------------------------
(* Recorded questions for settings; the configurations never change by asking. *)
EXTENDS HGAAConf, TraceBase
VARIABLES c, l, st

CaseInit0(case) == [service |-> case.service, client |-> case.client]
Step0(case, s, ev) == LET v == Lookup(s, ev.name, ev.side, ev.sect) IN IF ev.got = v THEN Ok(s) ELSE No(<<"setting", v>>)
R == INSTANCE Runner WITH Cases <- TraceCases, CaseInit <- CaseInit0, Step <- Step0
Spec == R!RunSpec
=============================================================================
