----------------------------- MODULE HGAAClient -----------------------------
(* The clients of both authorities: what they send, what they take for a       *)
(* result, and which key they remember.                                        *)
(* s.open: the address the client talks to; s.last: the public half of the key *)
(* remembered (<<>> for none); s.seen: the public halves used so far           *)
(* conf: cred (a number standing for the credentials), bits (size of the keys  *)
(* made), who (the identifier of a service, for sessions)                      *)
EXTENDS Integers, Sequences, FiniteSets

(* a reply: st status (0 for none: the call itself failed), fault, result (a   *)
(* number standing for its contents, 0 for none)                               *)
Success(rep) == rep.st = 200 /\ ~rep.fault /\ rep.result # 0

(* one message, to the address the client talks to                             *)
Sent(s, ev, m) == Len(ev.sent) = 1 /\ ev.sent[1].to = s.open /\ ev.sent[1].method = m
Message(s, ev) ==
  LET q == ev.sent[1]
  IN  /\ q.cred = s.conf.cred
      /\ q.names = ev.names /\ q.ids = ev.ids
      /\ q.pub # <<>> /\ ~q.secret /\ ~q.more                          \* a public key, nothing secret, nothing else
      /\ q.cipher = "RSA"
      /\ IF ev.key # <<>> THEN q.pub = ev.key /\ q.bits = ev.bits
         ELSE q.pub \notin s.seen /\ q.bits = s.conf.bits /\ q.real = s.conf.bits
Reply(ev) == IF Success(ev.rep) THEN ev.got = "ok" /\ ev.value = ev.rep.result ELSE ev.got = "fail"
=============================================================================
