----------------------------- MODULE TraceConn -----------------------------
(* Recorded connections: every one made on behalf of a service is the one it   *)
(* is configured for, and if it is configured for none, none is made.  Open    *)
(* connections may be used again.                                              *)
EXTENDS HGAAConn, TraceBase
VARIABLES c, l, st

CaseInit0(case) == [c |-> [service |-> case.service, client |-> <<>>], open |-> {}]
Step0(case, s, ev) ==
  LET w == Connection(s.c, Up(ev.sect))
  IN  IF w.kind = "none" THEN IF ev.got = <<>> THEN Ok(s) ELSE No("no connection")
      ELSE IF Len(ev.got) = 0 THEN IF Up(ev.sect) \in s.open THEN Ok(s) ELSE No(<<"a connection", w>>)
      ELSE IF \A i \in 1..Len(ev.got) : ev.got[i] = w THEN Ok([s EXCEPT !.open = IF w.kind = "mysql" THEN @ ELSE @ \cup {Up(ev.sect)}]) ELSE No(<<"connection", w>>)
R == INSTANCE Runner WITH Cases <- TraceCases, CaseInit <- CaseInit0, Step <- Step0
Spec == R!RunSpec
=============================================================================
