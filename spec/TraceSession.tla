---------------------------- MODULE TraceSession ----------------------------
(* Recorded histories of a policy authority.  A case tells the aspects to be   *)
(* judged: "accept" (which sets open a session), "record" (times and rows of   *)
(* a session), "serial" (one serial, one certificate), "trace" (what a refusal *)
(* leaves), "info" (what it tells about itself and its peers).                 *)
EXTENDS HGAASession, TraceBase
VARIABLES c, l, st

Elems(s) == {s[i] : i \in 1..Len(s)}
Rows(d) == [sess |-> Elems(d.sess), certs |-> Elems(d.certs), asg |-> Elems(d.asg)]
CaseInit0(case) == [reg |-> case.reg, db |-> Rows(case.db), conf |-> case.conf]

Start(case, s, ev) ==
  LET asp == Elems(case.asp)
      gs == ev.given
      n == Len(gs)
      rs == TLCEval([i \in 1..n |-> Read(gs[i])])
      (* what stands behind every number of data given so far in this case     *)
      as == TLCEval([t \in {w.tok : w \in s.db.certs} |-> Read(case.toks[t])])
      now == Rows(ev.db)
      next == [s EXCEPT !.db = now]
      genuine(reg) == \A i \in 1..n : Genuine(case.keys, reg, gs[i], rs[i])
      good == {genuine(s.reg), genuine(ev.reg0)}
      read == \A i \in 1..n : rs[i].k = "cert"
      vague == \E i \in 1..n : rs[i].k \in {"odd", "free"}
      always == \A i \in 1..n : Always(rs[i].c, ev.lo, ev.hi)
      sometime == \A i \in 1..n : Sometime(rs[i].c, ev.lo, ev.hi)
      clash == Clash(gs, rs, s.db.certs, as)
      (* another request took one of the serials meanwhile                     *)
      raced == \E i \in 1..n : \E w \in s.db.certs : w.serial = Serial64(rs[i].c) /\ ~\E k \in 1..Len(ev.had) : ev.had[k] = w.serial
      may == n > 0 /\ read /\ TRUE \in good /\ sometime
      must == n > 0 /\ read /\ good = {TRUE} /\ always /\ ~ev.hit
      row == SessionRow(rs, ev.sid, ev.start, ev.svc, ev.addr)
      kept == /\ Len(ev.sid) = 20
              /\ row.id \notin {w.id : w \in s.db.sess}
              /\ NotAfter(ev.lo, ev.start) /\ NotAfter(ev.start, ev.hi)
              /\ ev.till = row.till
              /\ now.sess = s.db.sess \cup {row}
              /\ now.asg = AsgRows(rs, ev.sid, s.db.asg)
              /\ now.certs = CertRows(gs, rs, s.db.certs)
  IN  IF ev.got = "refused"
      THEN IF "trace" \in asp /\ now # s.db THEN No(<<"nothing left behind", s.db>>)
           ELSE IF "accept" \in asp /\ must /\ ~vague /\ clash = "no" /\ ~raced THEN No(<<"accepted">>)
           ELSE IF "serial" \in asp /\ must /\ ~vague /\ clash = "no" /\ ~raced THEN No(<<"accepted, no other certificate has its serial">>)
           ELSE Ok(next)
      ELSE IF ev.got # "ok" THEN No(<<"a session or a refusal">>)
      ELSE IF vague THEN Ok(next)
      ELSE IF ~may THEN IF "accept" \in asp THEN No(<<"refused">>) ELSE Ok(next)
      ELSE IF clash = "yes" THEN IF "serial" \in asp THEN No(<<"refused, the serial is another's">>) ELSE Ok(next)
      ELSE IF "serial" \in asp /\ now.certs # CertRows(gs, rs, s.db.certs) THEN No(<<"certificates kept", CertRows(gs, rs, s.db.certs)>>)
      ELSE IF "record" \in asp /\ ~kept THEN No(<<"session", row>>)
      ELSE Ok(next)

(* what is told about the authorities known: every entry, with its own data    *)
ListOk(s, ev) == /\ Len(ev.list) = Len(s.reg)
                 /\ Elems(ev.list) = {[uid |-> s.reg[i].uid, name |-> s.reg[i].name, url |-> s.reg[i].url, cipher |-> s.reg[i].cipher, size |-> s.reg[i].size,
                                       pub |-> s.reg[i].pub, trust |-> s.reg[i].trust] : i \in 1..Len(s.reg)}

Step0(case, s, ev) ==
  CASE ev.op = "start" -> Start(case, s, ev)
    [] ev.op = "registry" -> Ok([s EXCEPT !.reg = ev.reg])
    [] ev.op = "restart" -> IF Rows(ev.db) = s.db THEN Ok([s EXCEPT !.conf = ev.conf]) ELSE No(<<"everything as before the restart">>)
    (* the administrator removed ended sessions; the certificates stay           *)
    [] ev.op = "purge" -> LET now == Rows(ev.db) IN
                          IF now.certs = s.db.certs /\ now.sess \subseteq s.db.sess /\ now.asg \subseteq s.db.asg THEN Ok([s EXCEPT !.db = now]) ELSE No(<<"fewer sessions">>)
    [] ev.op = "list" -> IF "info" \notin Elems(case.asp) \/ ListOk(s, ev) THEN Ok(s) ELSE No(<<"the registry", s.reg>>)
    [] ev.op = "info" -> IF "info" \notin Elems(case.asp) \/ ev.info = s.conf THEN Ok(s) ELSE No(<<"the settings", s.conf>>)
    [] OTHER -> No(<<"unknown event">>)

R == INSTANCE Runner WITH Cases <- TraceCases, CaseInit <- CaseInit0, Step <- Step0
Spec == R!RunSpec
=============================================================================
