----------------------------- MODULE HGAASession -----------------------------
(* The policy authority: which certificates open a session, how long it lasts, *)
(* and what is kept of it.                                                     *)
(*                                                                             *)
(* reg: sequence of [uid, key, trust, ...], the attribute authorities known;   *)
(*      keys are numbers, 0 a key that is none                                 *)
(* db:  [sess, certs, asg], sets of rows                                       *)
(* g (a certificate as given): data, ver, fmt, tok (a number for the data,     *)
(*      equal for equal data), hash (its hash), sigs (the keys the signature   *)
(*      at its end verifies with, over all that comes before)                  *)
(* keys: sequence of [b, k]: bytes b are a form of key k                       *)
(* Moments are 4 bytes, least first.                                           *)
EXTENDS HGAACert

MaxLength == 86400
Formats == <<"BYTES", "-", "-", "BASE64", "BASE64FULL">>      \* by number, from 0
Supported == {0, 3, 4}

KeyNo(keys, b) == LET f == {i \in 1..Len(keys) : keys[i].b = b} IN IF f = {} THEN -1 ELSE keys[CHOOSE i \in f : TRUE].k
Read(g) == IF g.ver # 1 \/ g.fmt \notin Supported THEN [k |-> "bad"] ELSE ReadAs(Formats[g.fmt + 1], g.data)

(* everything but the time                                                     *)
Genuine(keys, reg, g, r) ==
  /\ r.k = "cert"
  /\ LET k == KeyNo(keys, r.c.ikey)
     IN  /\ k > 0
         /\ \E i \in 1..Len(g.sigs) : g.sigs[i] = k
         /\ r.c.salgo # <<>>
         /\ \E i \in 1..Len(reg) : reg[i].uid = r.c.iuid /\ reg[i].trust > 0 /\ reg[i].key = k
NotAfter(a, b) == ~LessLE(b, a)
(* within validity at every moment, at some moment, from lo to hi              *)
Always(x, lo, hi) == LessLE(x.after, lo) /\ LessLE(hi, x.before)
(* some t has lo <= t <= hi, after < t < before                                *)
Sometime(x, lo, hi) == LessLE(x.after, hi) /\ LessLE(lo, x.before)
                       /\ \E d \in {0, 1} : \/ d = 0 /\ LessLE(x.after, lo)                 \* t = lo
                                            \/ d = 1 /\ NotAfter(lo, x.after) /\ LessLE(LEPlus(x.after, 1), x.before)   \* t = after + 1

Serial64(x) == Base64(Pad(x.serial, 20))
MaxLE(X) == CHOOSE x \in X : \A y \in X : NotAfter(y, x)
MinLE(X) == CHOOSE x \in X : \A y \in X : NotAfter(x, y)

(* two of the given certificates, or a given and a stored one, with the same   *)
(* serial: "no" conflict, "yes" if their contents differ, "open" if it is the  *)
(* same certificate in another form                                            *)
Clash(gs, rs, stored, storedAs) ==
  LET n == Len(gs)
      other(i, j) == rs[i].c.serial = rs[j].c.serial /\ gs[i].tok # gs[j].tok
      old(i) == {w \in stored : w.serial = Serial64(rs[i].c) /\ w.tok # gs[i].tok}
      same(i, w) == storedAs[w.tok].k = "cert" /\ storedAs[w.tok].c = rs[i].c
  IN  IF \/ \E i, j \in 1..n : other(i, j) /\ rs[i].c # rs[j].c
         \/ \E i \in 1..n : \E w \in old(i) : ~same(i, w)
      THEN "yes"
      ELSE IF (\E i, j \in 1..n : other(i, j)) \/ \E i \in 1..n : old(i) # {} THEN "open"
      ELSE "no"

(* ---- what is kept ---- *)
SessionRow(rs, sid, start, svc, addr) ==
  LET X == {rs[i].c : i \in 1..Len(rs)}
      till == MinLE({x.before : x \in X})
      most == LEPlus(start, MaxLength)
  IN  [id |-> Base64(sid), cs |-> MaxLE({x.issued : x \in X}), cv |-> till, st |-> start, ip |-> addr, uid |-> svc,
       till |-> IF LessLE(till, most) THEN till ELSE most]
CertRow(g, x) == [serial |-> Serial64(x), tok |-> g.tok, fmt |-> g.fmt, ver |-> g.ver, till |-> x.before, hash |-> g.hash]
CertRows(gs, rs, stored) ==
  stored \cup {CertRow(gs[i], rs[i].c) : i \in {j \in 1..Len(gs) : /\ ~\E w \in stored : w.serial = Serial64(rs[j].c)
                                                                /\ \A m \in 1..(j - 1) : rs[m].c.serial # rs[j].c.serial}}
AsgRows(rs, sid, asg) == asg \cup {[serial |-> Serial64(rs[i].c), id |-> Base64(sid)] : i \in 1..Len(rs)}
=============================================================================
