------------------------------ MODULE TraceCert ------------------------------
(* Recorded histories of attribute certificates.  The state is the sequence of *)
(* certificates in play (as the code made, imported or changed them) and the   *)
(* signatures made so far.                                                     *)
EXTENDS HGAACert, TraceBase
VARIABLES c, l, st

CaseInit0(case) == [certs |-> <<>>, made |-> {}]
Must(cond, s, why) == IF cond THEN Ok(s) ELSE No(why)
Add(s, x) == [s EXCEPT !.certs = Append(@, x)]
Put(s, h, x) == [s EXCEPT !.certs[h] = x]
Made(s, pub, body, val) == [s EXCEPT !.made = @ \cup {<<pub, body, val>>}]

(* signing: nothing but the signature changes, its value is one the key makes  *)
(* over exactly the content, as an independent implementation confirms         *)
SignedOk(old, ev) == /\ ev.c = [old EXCEPT !.salgo = ev.label, !.sval = ev.c.sval]
                     /\ ev.body = Body(old)
                     /\ ev.valid

ExportOut(fmt, x) == CASE fmt = "BYTES" -> Encode(x) [] fmt = "BASE64" -> Base64(Encode(x)) [] fmt = "BASE64FULL" -> Armour(x) [] fmt = "TEXT" -> Text(x)

ExportStep(s, ev) ==
  LET old == s.certs[ev.h]
      holds == BodyHolds(old)
      refused == ev.got = "fail" /\ ev.c = old
  IN  IF ev.mode = "nokey" \/ ev.fmt = "XML" \/ (~holds /\ ev.fmt # "TEXT") THEN Must(refused, s, <<"refused, unchanged">>)
      ELSE IF ev.mode = "plain" /\ ~WholeSig(old) THEN Ok(Put(s, ev.h, ev.c))
      ELSE IF ev.got # "ok" THEN No(<<"exported">>)
      ELSE IF ev.mode = "sign"
      THEN Must(SignedOk(old, ev) /\ ev.out = ExportOut(ev.fmt, ev.c), Made(Put(s, ev.h, ev.c), ev.pub, ev.body, ev.c.sval), <<"signed and exported", Body(old)>>)
      ELSE Must(ev.c = old /\ ev.out = ExportOut(ev.fmt, old), s, <<"exported", ExportOut(ev.fmt, old)>>)

(* ---- import ---- *)
ImportStep(s, ev) ==
  LET r == ReadAs(ev.fmt, ev.data)
      good == ev.got = "ok" /\ (ev.verify => Verifies(ev.c, s.made))
      fail == ev.got = "fail"
      out == IF ev.got = "ok" THEN Add(s, ev.c) ELSE s
      what == IF r.k \in {"cert", "odd"} THEN <<r.k, r.c>> ELSE <<r.k>>
  IN  IF ~ev.same THEN No(<<"input left alone">>)
      ELSE CASE r.k = "bad" -> Must(fail, out, <<"refused, not a certificate">>)
             [] r.k = "free" -> Must(fail \/ good, out, <<"refused or verified">>)
             [] r.k = "odd" -> Must(fail \/ (good /\ ev.c = r.c), out, what)
             [] OTHER -> IF ev.verify /\ ~Verifies(r.c, s.made) THEN Must(fail, out, <<"refused, does not verify">>)
                         ELSE Must(good /\ ev.c = r.c, out, what)

(* a certificate made with defaults between the moments lo and hi              *)
Between(t, a, b) == ~LessLE(t, a) /\ ~LessLE(b, t)
(* one of the limits given, the other left to the default                      *)
PartOk(x, ev) == IF ev.given = "after" THEN x.after = ev.at /\ Between(x.before, LEPlus(ev.lo, 86400), LEPlus(ev.hi, 86400))
                 ELSE x.before = ev.at /\ Between(x.after, ev.lo, ev.hi)
FreshOk(x, lo, hi) ==
  LET in(t, a, b) == Between(t, a, b)
  IN  /\ x.ver = 0 /\ Len(x.serial) <= 20 /\ IsBytes(x.serial)
      /\ in(x.issued, lo, hi) /\ in(x.after, lo, hi)
      /\ in(x.before, LEPlus(lo, 86400), LEPlus(hi, 86400))

Step0(case, s, ev) ==
  CASE ev.op = "new" -> Must(ev.c = ev.want, Add(s, ev.c), <<"content as given">>)
    [] ev.op = "fresh" -> Must(FreshOk(ev.c, ev.lo, ev.hi) /\ \A i \in 1..Len(s.certs) : s.certs[i].serial # ev.c.serial, Add(s, ev.c), <<"made now, for a day">>)
    [] ev.op = "part" -> Must(PartOk(ev.c, ev), Add(s, ev.c), <<"the given limit and the default of the other">>)
    [] ev.op = "set" -> Ok(Put(s, ev.h, ev.c))
    [] ev.op = "sign" -> IF BodyHolds(s.certs[ev.h])
                         THEN Must(ev.got = "ok" /\ SignedOk(s.certs[ev.h], ev), Made(Put(s, ev.h, ev.c), ev.pub, ev.body, ev.c.sval), <<"signature over", Body(s.certs[ev.h])>>)
                         ELSE Must(ev.got = "fail" /\ ev.c = s.certs[ev.h], s, <<"refused">>)
    [] ev.op = "foreign" -> Must(ev.body = Body(s.certs[ev.h]), Made(Put(s, ev.h, ev.c), ev.pub, ev.body, ev.c.sval), <<"content", Body(s.certs[ev.h])>>)
    [] ev.op = "verify" -> LET x == s.certs[ev.h]
                               v == BodyHolds(x) /\ Verifies(x, s.made)
                           IN  Must(ev.c = x /\ (IF v THEN ev.got = "T" ELSE ev.got \in {"F", "X"}), s, <<"verifies", v>>)
    [] ev.op = "time" -> Must(ev.got = (IF InWindow(s.certs[ev.h], ev.now) THEN "T" ELSE "F") /\ ev.c = s.certs[ev.h], s, <<"inside", InWindow(s.certs[ev.h], ev.now)>>)
    [] ev.op = "timenow" -> LET a == InWindow(s.certs[ev.h], ev.lo)
                                b == InWindow(s.certs[ev.h], ev.hi)
                            IN  Must(a # b \/ ev.got = (IF a THEN "T" ELSE "F"), s, <<"inside", a>>)
    [] ev.op = "eq" -> LET e == Equal(s.certs[ev.a], s.certs[ev.b])
                           g == IF e THEN "T" ELSE "F"
                       IN  Must(ev.ab = g /\ ev.ba = g /\ ev.ne = (IF e THEN "F" ELSE "T"), s, <<"equal", e>>)
    [] ev.op = "export" -> ExportStep(s, ev)
    [] ev.op = "import" -> ImportStep(s, ev)
    [] ev.op = "look" -> Must(ev.c = s.certs[ev.h], s, <<"unchanged">>)
    [] OTHER -> No(<<"unknown event">>)

R == INSTANCE Runner WITH Cases <- TraceCases, CaseInit <- CaseInit0, Step <- Step0
Spec == R!RunSpec
=============================================================================
