------------------------------ MODULE GenWorld ------------------------------
(* Attribute authorities, policy authorities, users and an adversary, all      *)
(* together.  Authority a signs with key[a]; key 9 is the adversary's.         *)
(* Certificates in circulation: pool, a sequence of                            *)
(*   [a (issuer named), k (key it is signed with), t (moment of issue),        *)
(*    ok (nothing altered since it was signed), of (the entry it stems from)]  *)
(* trust[p][a]: the key policy authority p has for a, 0 for none.              *)
(* The histories are replayed into real services.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxLen, MaxPool, Rich
VARIABLES now, key, pool, trust, sess, hist, done
vars == <<now, key, pool, trust, sess, hist, done>>
AAs == 1..2
PAs == 1..2
Adv == 9
Life == 3

Valid(c) == c.t < now /\ now < c.t + Life
Good(p, c) == c.ok /\ trust[p][c.a] = c.k /\ Valid(c)
Init == /\ now = 2
        /\ key = [a \in AAs |-> a]
        /\ pool = <<[a |-> 1, k |-> 1, t |-> 1, ok |-> TRUE, of |-> 1], [a |-> 2, k |-> 2, t |-> 2, ok |-> TRUE, of |-> 2]>>
        /\ trust = [p \in PAs |-> [a \in AAs |-> IF p = 1 \/ a = 1 THEN a ELSE 0]]
        /\ sess = {}
        /\ hist = <<<<"request", 1, <<1>>>>, <<"tick", 1, <<>>>>, <<"request", 2, <<1>>>>>>
        /\ done = FALSE
Log(k, x, y) == hist' = Append(hist, <<k, x, y>>)
Add(c) == Len(pool) < MaxPool /\ pool' = Append(pool, c)

Request == \E a \in AAs : Log("request", a, <<1>>) /\ Add([a |-> a, k |-> key[a], t |-> now, ok |-> TRUE, of |-> Len(pool) + 1]) /\ UNCHANGED <<now, key, trust, sess>>
Denied == Rich /\ \E a \in AAs : Log("request", a, <<0>>) /\ UNCHANGED <<now, key, pool, trust, sess>>
(* the adversary alters: 1 an attribute, 2 the validity, 3 the signature,      *)
(* 4 takes the signature of another, 5 the issuer's name, 6 the holder         *)
Alter == \E n \in 1..Len(pool), h \in (IF Rich THEN 1..6 ELSE {1, 2, 4}) :
           Log("alter", n, <<h>>) /\ Add([pool[n] EXCEPT !.ok = FALSE]) /\ UNCHANGED <<now, key, trust, sess>>
(* ... and signs with its own key, keeping the key named or naming its own     *)
Resign == \E n \in 1..Len(pool), h \in 1..2 :
            Log("resign", n, <<h>>) /\ Add([pool[n] EXCEPT !.k = Adv, !.ok = h = 2]) /\ UNCHANGED <<now, key, trust, sess>>
(* anyone puts it into another form                                            *)
Convert == \E n \in 1..Len(pool) : pool[n].of = n /\ Log("convert", n, <<>>) /\ Add([pool[n] EXCEPT !.of = n]) /\ UNCHANGED <<now, key, trust, sess>>
Present == \E p \in PAs, q \in UNION {[1..m -> 1..Len(pool)] : m \in 1..2} :
             /\ Log("present", p, q)
             /\ sess' = IF \A i \in 1..Len(q) : Good(p, pool[q[i]])
                        THEN sess \cup {[p |-> p, c |-> pool[q[i]], at |-> now, tr |-> trust[p]] : i \in 1..Len(q)} ELSE sess
             /\ UNCHANGED <<now, key, pool, trust>>
Trust == \E p \in PAs, a \in AAs : \E k \in {0, a, a + 2, Adv} :
           k # trust[p][a] /\ Log("trust", p, <<a, k>>) /\ trust' = [trust EXCEPT ![p][a] = k] /\ UNCHANGED <<now, key, pool, sess>>
Rekey == \E a \in AAs : key[a] = a /\ Log("rekey", a, <<a + 2>>) /\ key' = [key EXCEPT ![a] = a + 2] /\ UNCHANGED <<now, pool, trust, sess>>
Tick == \E d \in 1..2 : now < 9 /\ Log("tick", d, <<>>) /\ now' = now + d /\ UNCHANGED <<key, pool, trust, sess>>
Restart == Rich /\ \E p \in PAs : Log("restart", p, <<>>) /\ UNCHANGED <<now, key, pool, trust, sess>>
Next == \/ Len(hist) < MaxLen + 3 /\ (Request \/ Denied \/ Alter \/ Resign \/ Convert \/ Present \/ Trust \/ Rekey \/ Tick \/ Restart) /\ done' = FALSE
        \/ Len(hist) = MaxLen + 3 /\ ~done /\ done' = TRUE /\ UNCHANGED <<now, key, pool, trust, sess, hist>>
Spec == Init /\ [][Next]_vars

(* a session needs a certificate issued by one who held the key the policy     *)
(* authority had for the issuer, presented inside its validity                 *)
Sound == \A s \in sess : s.c.ok /\ s.c.t < s.at /\ s.at < s.c.t + Life /\ s.tr[s.c.a] = s.c.k
(* the adversary gets in only where its key is registered                      *)
NoForgery == \A s \in sess : s.c.k = Adv => s.tr[s.c.a] = Adv
(* trust taken away keeps nobody's old session from having been rightly opened,*)
(* and opens no new one                                                        *)
NoTrust == [][\A s \in sess' \ sess : trust[s.p][s.c.a] # 0]_vars
View == <<now, key, pool, trust, sess, Len(hist), done>>
Emit == (done /\ \E i \in 1..Len(hist) : hist[i][1] = "present") => PrintT("GEN|" \o ToJson(hist))
=============================================================================
