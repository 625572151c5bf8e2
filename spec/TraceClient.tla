---------------------------- MODULE TraceClient ----------------------------
(* Recorded histories of clients.                                              *)
EXTENDS HGAAClient, TraceBase
VARIABLES c, l, st

CaseInit0(case) == [conf |-> case.conf, open |-> case.open, last |-> <<>>, seen |-> {}]

Attribute(s, ev) ==
  IF ~Sent(s, ev, "attribute_request") THEN No(<<"one request to", s.open>>)
  ELSE IF ~Message(s, ev) THEN No(<<"credentials, lists and public key", s.conf>>)
  ELSE IF ~Reply(ev) THEN No(<<"the result of a successful reply only">>)
  ELSE LET q == ev.sent[1]
           last == IF Success(ev.rep) THEN q.pub ELSE s.last
       IN  IF ev.last.pub # last THEN No(<<"the key of the last successful request", last>>)
           ELSE IF Success(ev.rep) /\ (IF ev.key = <<>> THEN ~ev.last.private ELSE ~ev.last.same) THEN No(<<"the key itself">>)
           ELSE Ok([s EXCEPT !.last = last, !.seen = @ \cup {q.pub}])

Plain(s, ev, m) == IF ~Sent(s, ev, m) THEN No(<<"one request to", s.open>>)
                   ELSE IF ev.sent[1].more THEN No(<<"nothing else">>)
                   ELSE IF ~Reply(ev) THEN No(<<"the result of a successful reply only">>)
                   ELSE IF ev.last.pub # s.last THEN No(<<"the same key as before">>)
                   ELSE Ok(s)

(* sessions: the service's own identifier and the certificates given; what is  *)
(* returned is left open, but nothing is if the call itself fails              *)
Session(s, ev) == IF ~Sent(s, ev, "start_session") THEN No(<<"one request to", s.open>>)
                  ELSE IF ev.sent[1].more \/ ev.sent[1].who # s.conf.who \/ ev.sent[1].certs # ev.certs THEN No(<<"identifier and certificates", s.conf.who>>)
                  ELSE IF ev.rep.st = 0 /\ ev.got # "fail" THEN No(<<"a failure">>)
                  ELSE Ok(s)

Update(s, ev) == IF ev.known
                 THEN IF ev.got = "ok" /\ ev.last.pub = s.last THEN Ok([s EXCEPT !.open = IF ev.url = <<>> THEN @ ELSE ev.url[1]]) ELSE No(<<"taken">>)
                 ELSE IF ev.got = "fail" /\ ev.last.pub = s.last THEN Ok(s) ELSE No(<<"refused">>)

Step0(case, s, ev) ==
  CASE ev.op = "attribute_request" -> Attribute(s, ev)
    [] ev.op = "info" -> Plain(s, ev, "info")
    [] ev.op = "trusted" -> Plain(s, ev, "trusted_attribute_authorities")
    [] ev.op = "session" -> Session(s, ev)
    [] ev.op = "update" -> Update(s, ev)
    [] OTHER -> No(<<"unknown event">>)

R == INSTANCE Runner WITH Cases <- TraceCases, CaseInit <- CaseInit0, Step <- Step0
Spec == R!RunSpec
=============================================================================
