----------------------------- MODULE TraceIssue -----------------------------
(* Recorded histories of an attribute authority.  A case tells the aspects to  *)
(* be judged: "auth" (who gets a certificate, and what a refusal leaves        *)
(* behind), "atts" (the attributes of the user), "sign" (frame, signature,     *)
(* serial, storage), "con" (connection attributes), "info" (what it tells       *)
(* about itself).                                                              *)
(* Contents of files and of the database are told apart by numbers the         *)
(* recorder gives them, equal numbers for equal contents.                      *)
EXTENDS HGAAIssue, TraceBase
VARIABLES c, l, st

CaseInit0(case) == [conf |-> case.conf, accounts |-> case.accounts, atts |-> case.atts, assign |-> case.assign, db |-> case.db, files |-> {}, serials |-> {}, said |-> <<>>]
Must(cond, s, why) == IF cond THEN Ok(s) ELSE No(why)
Elems(s) == {s[i] : i \in 1..Len(s)}

(* refusals of credentials tell the same whether or not the account exists:    *)
(* said is what was said about each pair of a kind and a password              *)
SaidOf(s, rq) == {s.said[i].t : i \in {j \in 1..Len(s.said) : s.said[j].p = <<rq.type, rq.pass>>}}
Refused(case, s, ev, creds) ==
  LET s2 == IF creds THEN [s EXCEPT !.said = Append(@, [p |-> <<ev.rq.type, ev.rq.pass>>, t |-> ev.said])] ELSE s
  IN  IF ev.got # "refused" THEN No(<<"refused">>)
      ELSE IF Elems(ev.files) # s.files \/ ev.db # s.db THEN No(<<"refused, nothing left behind">>)
      ELSE IF creds /\ \E t \in SaidOf(s, ev.rq) : t # ev.said THEN No(<<"the same refusal as before", SaidOf(s, ev.rq)>>)
      ELSE Ok(s2)

Issued(case, s, ev, u) ==
  LET r == Decode(ev.data)
      x == r.c
      asp == Elems(case.asp)
      has == Has(s.atts, s.assign, u)
      s2 == [s EXCEPT !.files = @ \cup {ev.file}, !.serials = @ \cup {x.serial}]
  IN  IF ev.got # "ok" THEN No(<<"issued">>)
      ELSE IF r.k # "cert" THEN No(<<"a certificate">>)
      ELSE IF ev.db # s.db THEN No(<<"nothing changed in the database">>)
      ELSE IF "atts" \in asp /\ ~RightAtts(has, ev.rq, Sel(x.atts, FALSE)) THEN No(<<"attributes of the user", has>>)
      ELSE IF "con" \in asp /\ ~(\E t \in ev.lo..ev.hi : SameBag(Sel(x.atts, TRUE), ConAtts(s.conf, ev.rq, x.serial, t)))
      THEN No(<<"connection attributes", ConAtts(s.conf, ev.rq, x.serial, ev.lo)>>)
      ELSE IF "sign" \in asp /\ ~RightFrame(s.conf, s.accounts[u].n, ev.rq, x, ev.lo, ev.hi) THEN No(<<"issuer, holder, times">>)
      ELSE IF "sign" \in asp /\ ~(ev.valid /\ ev.ver = 1 /\ ev.fmt = 0) THEN No(<<"signed by the authority">>)
      ELSE IF "sign" \in asp /\ ~(Len(x.serial) <= 20 /\ x.serial \notin s.serials) THEN No(<<"a new serial">>)
      ELSE IF "sign" \in asp /\ ~(ev.file \notin s.files /\ Elems(ev.files) = s.files \cup {ev.file}) THEN No(<<"stored as returned">>)
      ELSE Ok([s2 EXCEPT !.files = Elems(ev.files)])

(* an outcome another property judges                                         *)
Else(case, s, ev) == Ok([s EXCEPT !.files = Elems(ev.files), !.db = ev.db])
Request(case, s, ev) ==
  LET who == Who(s.accounts, ev.rq)
      asp == Elems(case.asp)
  IN  IF who = {} THEN IF "auth" \in asp THEN Refused(case, s, ev, ev.rq.user # <<>>) ELSE Else(case, s, ev)
      ELSE LET u == CHOOSE i \in who : TRUE
           IN  IF MayHave(Has(s.atts, s.assign, u), ev.rq) THEN Issued(case, s, ev, u)
               ELSE IF "atts" \in asp \/ ("auth" \in asp /\ ev.got # "ok") THEN Refused(case, s, ev, FALSE)
               ELSE Else(case, s, ev)

Step0(case, s, ev) ==
  CASE ev.op = "request" -> Request(case, s, ev)
    [] ev.op = "change" -> Ok([s EXCEPT !.accounts = ev.accounts, !.atts = ev.atts, !.assign = ev.assign, !.db = ev.db])
    [] ev.op = "restart" -> Must(Elems(ev.files) = s.files /\ ev.db = s.db, [s EXCEPT !.conf = ev.conf], <<"everything as before the restart">>)
    [] ev.op = "info" -> IF "info" \notin Elems(case.asp) \/ ev.info = Info(s.conf) THEN Ok(s) ELSE No(<<"the settings and the key", Info(s.conf)>>)
    [] OTHER -> No(<<"unknown event">>)

R == INSTANCE Runner WITH Cases <- TraceCases, CaseInit <- CaseInit0, Step <- Step0
Spec == R!RunSpec
=============================================================================
