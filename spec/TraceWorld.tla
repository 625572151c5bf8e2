----------------------------- MODULE TraceWorld -----------------------------
(* Recorded histories of several attribute and policy authorities.  Data is    *)
(* given by its number in the table toks of the case; dec is what it reads as. *)
EXTENDS HGAAWorld, TraceBase
VARIABLES c, l, st

Elems(s) == {s[i] : i \in 1..Len(s)}
CaseInit0(case) == [dec |-> TLCEval([t \in 1..Len(case.toks) |-> Read(case.toks[t])]), aas |-> case.aas, pas |-> [i \in 1..Len(case.pas) |-> [reg |-> case.pas[i], certs |-> {}]], issued |-> {}]

(* a user asks authority a                                                     *)
Request(case, s, ev) ==
  LET A == s.aas[ev.a]
      who == Who(A.accounts, ev.rq)
      u == CHOOSE i \in who : TRUE
      r == s.dec[ev.t]
      x == r.c
  IN  IF who = {} \/ ~MayHave(Has(A.atts, A.assign, u), ev.rq)
      THEN IF ev.got = "refused" THEN Ok(s) ELSE No(<<"refused">>)
      ELSE IF ev.got # "ok" \/ r.k # "cert" THEN No(<<"a certificate">>)
      ELSE IF ~RightAtts(Has(A.atts, A.assign, u), ev.rq, Sel(x.atts, FALSE)) THEN No(<<"the attributes of the user">>)
      ELSE IF ~RightFrame(A.conf, A.accounts[u].n, ev.rq, x, ev.lo, ev.hi) THEN No(<<"issuer, holder and times">>)
      ELSE Ok([s EXCEPT !.issued = @ \cup {[k |-> A.key, t |-> ev.t]}])
(* the adversary made a certificate and signed it with a key it holds          *)
Forged(case, s, ev) == LET r == s.dec[ev.t] IN Ok([s EXCEPT !.issued = @ \cup (IF r.k = "cert" THEN {[k |-> ev.k, t |-> ev.t]} ELSE {})])
(* somebody reads a certificate and writes it in another form                  *)
Convert(case, s, ev) ==
  LET r == s.dec[ev.from]
      q == s.dec[ev.to]
  IN  IF ev.got = "ok" THEN IF r.k # "cert" \/ (q.k = "cert" /\ q.c = r.c) THEN Ok(s) ELSE No(<<"the same certificate">>)
      ELSE IF r.k = "cert" THEN No(<<"converted">>) ELSE Ok(s)
(* somebody checks a certificate against the key it names                      *)
Verify(case, s, ev) ==
  LET r == s.dec[ev.from]
      k == KeyNo(case.keys, r.c.ikey)
  IN  IF r.k # "cert" THEN Ok(s)
      ELSE IF (ev.got = "yes") = (k > 0 /\ MadeBy(s.dec, s.issued, k, r.c)) THEN Ok(s) ELSE No(<<"verified iff made with its key", k>>)

Start(case, s, ev) ==
  LET P == s.pas[ev.p]
      gs == ev.given
      n == Len(gs)
      rs == TLCEval([i \in 1..n |-> s.dec[gs[i]]])
      vague == \E i \in 1..n : rs[i].k \in {"odd", "free"}
      genuine == \A i \in 1..n : rs[i].k = "cert" /\ Trusted(case.keys, P.reg, s.dec, s.issued, rs[i].c)
      clash == \/ \E i, j \in 1..n : gs[i] # gs[j] /\ rs[i].c.serial = rs[j].c.serial
               \/ \E i \in 1..n : \E w \in P.certs : w.serial = rs[i].c.serial /\ w.tok # gs[i]
      may == n > 0 /\ genuine /\ \A i \in 1..n : Sometime(rs[i].c, ev.lo, ev.hi)
      must == n > 0 /\ genuine /\ (\A i \in 1..n : Always(rs[i].c, ev.lo, ev.hi)) /\ ~clash
      (* the certificates of the session are kept as they were issued           *)
      kept == \A i \in 1..n : \E j \in 1..Len(ev.kept) : ev.kept[j].serial = Serial64(rs[i].c)
                 /\ LET q == s.dec[ev.kept[j].t] IN q.k = "cert" /\ Bare(q.c) = Bare(rs[i].c)
      next == [s EXCEPT !.pas[ev.p].certs = @ \cup {[serial |-> rs[i].c.serial, tok |-> gs[i]] : i \in 1..n}]
  IN  IF ev.got = "refused" THEN IF must /\ ~vague THEN No(<<"a session">>) ELSE Ok(s)
      ELSE IF ev.got # "ok" THEN No(<<"a session or a refusal">>)
      ELSE IF vague THEN Ok(s)
      ELSE IF ~may THEN No(<<"refused">>)
      ELSE IF ~kept THEN No(<<"the certificates as issued">>)
      ELSE Ok(next)

Step0(case, s, ev) ==
  CASE ev.op = "request" -> Request(case, s, ev)
    [] ev.op = "aa" -> Ok([s EXCEPT !.aas[ev.a] = ev.now])
    [] ev.op = "pa" -> Ok([s EXCEPT !.pas[ev.p].reg = ev.reg])
    [] ev.op = "forged" -> Forged(case, s, ev)
    [] ev.op = "convert" -> Convert(case, s, ev)
    [] ev.op = "verify" -> Verify(case, s, ev)
    [] ev.op = "start" -> Start(case, s, ev)
    [] OTHER -> No(<<"unknown event">>)
R == INSTANCE Runner WITH Cases <- TraceCases, CaseInit <- CaseInit0, Step <- Step0
Spec == R!RunSpec
=============================================================================
