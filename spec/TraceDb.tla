------------------------------ MODULE TraceDb ------------------------------
(* Recorded histories of building, populating, wiping and using databases.     *)
EXTENDS HGAADb, TraceBase
VARIABLES c, l, st

Elems(s) == {s[i] : i \in 1..Len(s)}
All(dbs) == [i \in 1..Len(dbs) |-> [tables |-> Elems(dbs[i].tables), rows |-> Elems(dbs[i].rows)]]
CaseInit0(case) == All(case.dbs)
Only(s, now, i) == \A j \in 1..Len(s) : j # i => now[j] = s[j]

Populate(s, ev, now) ==
  IF ~ev.known THEN IF (ev.got = "fail" \/ (ev.nodb /\ ev.given = <<>> /\ ~ev.wipe)) /\ now = s THEN Ok(now) ELSE No(<<"refused, nothing changed">>)
  ELSE LET d == s[ev.at]
       IN  IF ~Only(s, now, ev.at) THEN No(<<"other databases as before">>)
           ELSE IF ev.got = "ok"
           THEN IF Can(d, ev.svc, ev.given, ev.wipe) /\ now[ev.at] = Populated(d, ev.svc, ev.given, ev.wipe) THEN Ok(now)
                ELSE No(<<"exactly the records given", Can(d, ev.svc, ev.given, ev.wipe)>>)
           ELSE IF ev.got = "fail" /\ (ev.hit \/ ~Can(d, ev.svc, ev.given, ev.wipe))
           THEN IF now[ev.at] \in Failed(d, ev.svc, ev.wipe) THEN Ok(now) ELSE No(<<"nothing added">>)
           ELSE No(<<"populated">>)

(* services built: their tables are there, nothing else has changed            *)
Build(s, ev, now) ==
  LET named(i) == UNION {Tables[ev.svcs[k].svc] : k \in {j \in 1..Len(ev.svcs) : ev.svcs[j].known /\ ev.svcs[j].at = i}}
      all == \A k \in 1..Len(ev.svcs) : ev.svcs[k].known
  IN  IF ev.got # (IF all THEN "ok" ELSE "fail") /\ ~(ev.got = "fail" /\ ev.hit) THEN No(<<"built if all are known">>)
      ELSE IF \A i \in 1..Len(s) : /\ now[i].rows = s[i].rows
                                   /\ s[i].tables \subseteq now[i].tables /\ now[i].tables \subseteq (s[i].tables \cup named(i))
                                   /\ (ev.got = "ok" => named(i) \subseteq now[i].tables)
      THEN Ok(now) ELSE No(<<"the tables of these services">>)

(* what a service reads through its own sessions: the rows of its tables       *)
Read(s, ev, now) == IF now # s THEN No(<<"nothing changed by reading">>)
                    ELSE IF Elems(ev.rows) = {x \in s[ev.at].rows : x.t \in Tables[ev.svc]} THEN Ok(now) ELSE No(<<"its own database">>)

Step0(case, s, ev) ==
  LET now == All(ev.dbs)
  IN  CASE ev.op = "populate" -> Populate(s, ev, now)
        [] ev.op = "build" -> Build(s, ev, now)
        [] ev.op = "read" -> Read(s, ev, now)
        [] OTHER -> No(<<"unknown event">>)
R == INSTANCE Runner WITH Cases <- TraceCases, CaseInit <- CaseInit0, Step <- Step0
Spec == R!RunSpec
=============================================================================
