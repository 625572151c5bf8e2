------------------------------ MODULE GenTools ------------------------------
(* Histories of settings changed, keys and hashes made, services started and   *)
(* users logging in.                                                           *)
EXTENDS HGAATools, Json
CONSTANTS MaxLen
VARIABLES hist, s, n, up, done
Conf0 == [pass |-> 1, file |-> 1, peppers |-> [AAUTH |-> <<1>>, PAUTH |-> <<2>>]]
Init == hist = <<>> /\ s = Fresh(Conf0) /\ n = 1 /\ up = <<>> /\ done = FALSE
Log(e) == hist' = Append(hist, e) /\ done' = FALSE
Act == \/ \E v \in 1..2 : v # s.pass /\ s' = [s EXCEPT !.pass = v] /\ Log(<<"pass", v, 0>>) /\ UNCHANGED <<n, up>>
       \/ \E v \in 1..2 : v # s.file /\ s' = [s EXCEPT !.file = v] /\ Log(<<"file", v, 0>>) /\ UNCHANGED <<n, up>>
       \/ \E v \in {<<1>>, <<3>>} : v # s.peppers.AAUTH /\ s' = [s EXCEPT !.peppers.AAUTH = v] /\ Log(<<"pepper", v[1], 0>>) /\ UNCHANGED <<n, up>>
       \/ s' = Keyed(s, n) /\ n' = n + 1 /\ Log(<<"genkey", 0, 0>>) /\ UNCHANGED up
       \/ Log(<<"start", 0, 0>>) /\ up' = (IF Starts(s) THEN <<KeyOf(s)>> ELSE <<>>) /\ UNCHANGED <<s, n>>
       \/ \E pw \in 1..2, u \in 1..2 : /\ s' = [Hashed(s, "AAUTH", <<pw>>, n) EXCEPT !.accounts = Put(@, u, n)]
                                       /\ n' = n + 1 /\ Log(<<"password", u, pw>>) /\ UNCHANGED up
Next == \/ Len(hist) < MaxLen /\ Act
        \/ Len(hist) = MaxLen /\ ~done /\ done' = TRUE /\ UNCHANGED <<hist, s, n, up>>
Spec == Init /\ [][Next]_<<hist, s, n, up, done>>
(* a user gets in with one password at most                                    *)
OnePassword == \A u \in 1..2 : Cardinality({pw \in 1..2 : LogsIn(s, u, <<pw>>)}) <= 1
(* no two files hold the same key                                              *)
OwnKeys == \A f, g \in DOMAIN s.keys : f # g => s.keys[f].key # s.keys[g].key
Emit == done => PrintT("GEN|" \o ToJson(hist))
=============================================================================
