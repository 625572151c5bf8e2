----------------------------- MODULE TraceLog -----------------------------
(* Recorded starts of the logging, loggers made and records logged.            *)
EXTENDS HGAALog, TraceBase
VARIABLES c, l, st

CaseInit0(case) == [c |-> [service |-> case.service, client |-> case.client], ls |-> <<>>, kept |-> {}]
Files(q) == {q[i] : i \in 1..Len(q)}
At(w, at) == SelectSeq(w, LAMBDA x : x.at = at)
Lines(w, at) == LET q == At(w, at) IN [i \in 1..Len(q) |-> q[i].line]

Step0(case, s, ev) ==
  IF ev.op = "start" THEN
    LET n == Started(s.c, Files(case.files))
    IN  IF ~ev.ok THEN No("does not start")
        ELSE IF Files(ev.kept) # n.kept THEN No(<<"kept", n.kept>>)
        ELSE IF ev.top # <<Top(s.c, TRUE), Top(s.c, FALSE)>> THEN No("names")
        ELSE Ok(n)
  ELSE IF ev.op = "make" THEN
    LET parent == IF ev.parent = <<>> THEN Top(s.c, ev.side) ELSE ev.parent
        n == Made(s, parent, ev.side, Up(ev.sect))
    IN  IF ~ev.ok THEN No("fails")
        ELSE IF ev.name # parent \o Dot \o Setting(s.c, "", "LOG_NAME", ev.side, Up(ev.sect)) THEN No("name")
        ELSE IF Files(ev.kept) # n.kept THEN No(<<"kept", n.kept>>)
        ELSE Ok(n)
  ELSE
    LET w == TLCEval(Written(s, [name |-> ev.name, level |-> ev.level, msg |-> ev.msg]))
    IN  IF /\ \A i \in 1..Len(ev.out) : ev.out[i].lines = Lines(w, ev.out[i].at)
           /\ \A i \in 1..Len(w) : \E j \in 1..Len(ev.out) : ev.out[j].at = w[i].at
        THEN Ok(s) ELSE No(<<"written", w>>)
R == INSTANCE Runner WITH Cases <- TraceCases, CaseInit <- CaseInit0, Step <- Step0
Spec == R!RunSpec
=============================================================================
