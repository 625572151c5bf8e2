----------------------------- MODULE GenSession -----------------------------
(* The policy authority in the large.  Certificates of a small pool (genuine,  *)
(* forged, altered, sharing serials, of several issuers and windows) are       *)
(* presented alone and in sets, also one request while another is being read   *)
(* and with the database failing; trust, keys and the clock change in between. *)
(* Its histories are replayed into the implementation.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization
CONSTANTS MaxLen, Pool, MaxSet, Nesting, Rich, Sample
VARIABLES reg, now, stored, sess, hist, last, done
vars == <<reg, now, stored, sess, hist, last, done>>

(* serial, issuer, key named in it, whether the signature is of that key over  *)
(* this content, validity; twin: the same certificate in another form          *)
P(s, i, k, ok, a, b, of) == [s |-> s, i |-> i, k |-> k, ok |-> ok, a |-> a, b |-> b, of |-> of]
C(n) == CASE n = 1 -> P(1, 1, 1, TRUE, 0, 4, 1)
          [] n = 2 -> P(2, 1, 1, TRUE, 1, 9, 2)
          [] n = 3 -> P(1, 1, 1, TRUE, 0, 6, 3)          \* the serial of 1, another certificate
          [] n = 4 -> P(4, 2, 2, TRUE, 0, 9, 4)
          [] n = 5 -> P(5, 1, 3, TRUE, 0, 9, 5)          \* names issuer 1, but the key is another's
          [] n = 6 -> P(6, 1, 1, FALSE, 0, 9, 6)         \* altered on the way
          [] n = 7 -> P(1, 1, 1, TRUE, 0, 4, 1)          \* 1 in another form
          [] n = 8 -> P(8, 3, 1, TRUE, 0, 9, 8)          \* of an issuer nobody knows, with a known key
          [] n = 9 -> P(1, 2, 2, TRUE, 0, 9, 9)          \* the serial of 1, of another issuer
          [] OTHER -> P(10, 1, 1, TRUE, 3, 5, 10)
Issuers == 1..2
Length == 3
Good(n) == LET x == C(n) IN x.ok /\ x.i \in Issuers /\ reg[x.i].trust > 0 /\ reg[x.i].key = x.k /\ x.a < now /\ now < x.b
Sets == UNION {[1..m -> 1..Pool] : m \in 1..MaxSet}
(* simulation draws n of them, anew for every history h                       *)
Draw(n, h) == IF Sample /\ Len(h) >= 0 THEN RandomSubset(n, Sets) ELSE Sets
El(q) == {q[i] : i \in 1..Len(q)}
(* accepted: all good, no serial standing for two certificates; the same       *)
(* certificate in another form is left open and taken as refused here          *)
Form(q, st) == /\ \A x, y \in El(q) : C(x).s = C(y).s => x = y
               /\ \A x \in El(q) : \A y \in st : C(x).s = C(y).s => x = y
Accepts(q, st) == (\A x \in El(q) : Good(x)) /\ Form(q, st)
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Session(q) == [certs |-> El(q), start |-> now, till |-> MinOf({now + Length} \cup {C(x).b : x \in El(q)}), reg |-> reg]

Init == /\ reg = [i \in Issuers |-> [key |-> i, trust |-> 1]]
        /\ now = 2 /\ stored = {} /\ sess = <<>> /\ hist = <<>> /\ last = <<>> /\ done = FALSE
Log(e) == hist' = Append(hist, e) /\ last' = e
Serve(q) == IF Accepts(q, stored) THEN stored' = stored \cup El(q) /\ sess' = Append(sess, Session(q)) ELSE UNCHANGED <<stored, sess>>
Request == \E q \in Draw(16, hist) : Log(<<"start", q, 0>>) /\ Serve(q) /\ UNCHANGED <<reg, now>>
(* the database fails at statement n: nothing happens                          *)
Failing == Rich /\ \E q \in Draw(3, hist), n \in 1..4 : Log(<<"fail", q, n>>) /\ UNCHANGED <<reg, now, stored, sess>>
(* q served while p is being read: q takes effect first                        *)
Nested == /\ Nesting
          /\ \E p \in Draw(4, hist), q \in Draw(4, hist) :
               /\ Log(<<"nest", p, q>>)
               /\ LET s1 == IF Accepts(q, stored) THEN stored \cup El(q) ELSE stored
                      n1 == IF Accepts(q, stored) THEN Append(sess, Session(q)) ELSE sess
                  IN  IF Accepts(p, s1) THEN stored' = s1 \cup El(p) /\ sess' = Append(n1, Session(p)) ELSE stored' = s1 /\ sess' = n1
               /\ UNCHANGED <<reg, now>>
Change == \/ \E i \in Issuers, t \in {-1, 0, 1} : reg[i].trust # t /\ Log(<<"trust", <<i>>, t>>) /\ reg' = [reg EXCEPT ![i].trust = t] /\ UNCHANGED <<now, stored, sess>>
          \/ \E i \in Issuers, k \in 1..3 : reg[i].key # k /\ Log(<<"rekey", <<i>>, k>>) /\ reg' = [reg EXCEPT ![i].key = k] /\ UNCHANGED <<now, stored, sess>>
          \/ \E d \in 1..2 : now + d < 10 /\ Log(<<"tick", <<>>, d>>) /\ now' = now + d /\ UNCHANGED <<reg, stored, sess>>
          \/ Rich /\ Log(<<"restart", <<>>, 0>>) /\ UNCHANGED <<reg, now, stored, sess>>
Next == \/ Len(hist) < MaxLen /\ (Request \/ Failing \/ Nested \/ Change) /\ done' = FALSE
        \/ Len(hist) = MaxLen /\ ~done /\ done' = TRUE /\ UNCHANGED <<reg, now, stored, sess, hist, last>>
Spec == Init /\ [][Next]_vars

(* ---- properties ---- *)
(* a session stands only on genuine certificates of issuers trusted at its     *)
(* start, and ends with the first of them                                      *)
Sound == \A i \in 1..Len(sess) : LET z == sess[i]
                                 IN  /\ z.certs # {}
                                     /\ \A x \in z.certs : /\ C(x).ok /\ C(x).i \in Issuers /\ z.reg[C(x).i] = [key |-> C(x).k, trust |-> 1]
                                                           /\ C(x).a < z.start /\ z.start < C(x).b /\ z.till <= C(x).b
                                     /\ z.start < z.till /\ z.till <= z.start + Length
OneSerial == \A x, y \in stored : C(x).s = C(y).s => x = y
Kept == \A i \in 1..Len(sess) : sess[i].certs \subseteq stored
Grows == [][stored \subseteq stored' /\ Len(sess) <= Len(sess') /\ SubSeq(sess', 1, Len(sess)) = sess]_vars
Quiet == [][sess' = sess => stored' = stored]_vars
StateView == <<reg, now, stored, sess, Len(hist), IF last = <<>> THEN 0 ELSE last[1]>>
Emit == (done /\ hist[MaxLen][1] \in {"start", "nest", "fail"}) => PrintT("GEN|" \o ToJson(hist))
=============================================================================
