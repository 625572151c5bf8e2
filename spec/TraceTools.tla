----------------------------- MODULE TraceTools -----------------------------
(* Recorded uses of the tools, and of the service with what they made.         *)
EXTENDS HGAATools, TraceBase
VARIABLES c, l, st

CaseInit0(case) == Fresh(case.conf)
Step0(case, s, ev) ==
  IF ev.op = "conf" THEN Ok([s EXCEPT !.pass = ev.conf.pass, !.file = ev.conf.file, !.peppers = ev.conf.peppers])
  ELSE IF ev.op = "genkey" THEN
    IF ev.kind # "aauth" THEN IF ev.ok \/ ev.changed # <<>> THEN No("refused, and no file changed") ELSE Ok(s)
    ELSE IF ~ev.ok THEN No("a key")
    ELSE IF ev.changed # <<s.file>> THEN No(<<"changes", s.file>>)
    ELSE IF ~ev.opens \/ ev.plain \/ ev.other THEN No("opens with the passphrase only")
    ELSE IF ev.bits < 2048 /\ ev.real THEN No("too short")
    ELSE IF ev.key \in s.seen THEN No("not a new key")
    ELSE Ok(Keyed(s, ev.key))
  ELSE IF ev.op = "start" THEN
    IF ev.ok # Starts(s) THEN No(<<"starts", Starts(s)>>)
    ELSE IF ev.ok /\ ev.key # KeyOf(s) THEN No("the key of the file")
    ELSE IF ev.changed # <<>> THEN No("changes a key file")
    ELSE Ok(s)
  ELSE IF ev.op = "password" THEN
    IF ev.ok # Hashable(s, ev.svc, ev.pw) THEN No(<<"hash", Hashable(s, ev.svc, ev.pw)>>)
    ELSE IF ev.changed # <<>> THEN No("changes a key file")
    ELSE IF ~ev.ok THEN Ok(s)
    ELSE IF ev.hash \in s.seen THEN No("the same hash again")
    ELSE IF \E i \in 1..Len(ev.fits) : ev.fits[i].fits # (ev.fits[i].t = Peppered(s, ev.svc, ev.pw)) THEN No("stands for the password")
    ELSE Ok(Hashed(s, ev.svc, ev.pw, ev.hash))
  ELSE IF ev.op = "account" THEN Ok([s EXCEPT !.accounts = Put(@, ev.user, ev.hash)])
  ELSE IF ev.op = "login" THEN IF ev.ok = LogsIn(s, ev.user, ev.pw) THEN Ok(s) ELSE No(<<"login", LogsIn(s, ev.user, ev.pw)>>)
  ELSE (* a command that is not one *) IF ev.ok \/ ev.changed # <<>> THEN No("refused, and no file changed") ELSE Ok(s)
R == INSTANCE Runner WITH Cases <- TraceCases, CaseInit <- CaseInit0, Step <- Step0
Spec == R!RunSpec
=============================================================================
