------------------------------- MODULE GenSign -------------------------------
(* Histories of signing, changing, moving and passing on certificates, with    *)
(* ideal signatures.  content is the set of fields that differ from the        *)
(* original (changing one back restores it).                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxLen, NFields, Keys, MaxCerts
VARIABLES hist, certs, made, done
None == [by |-> 0, k |-> 0, v |-> {}, bad |-> FALSE]
H == 1..Len(certs)
Sig(x, by) == [by |-> by, k |-> x.k, v |-> x.v, bad |-> FALSE]
Ver(x) == x.s # None /\ ~x.s.bad /\ x.s.by = x.k /\ x.s.k = x.k /\ x.s.v = x.v
Init == hist = <<>> /\ certs = <<[k |-> 1, v |-> {}, s |-> None]>> /\ made = {} /\ done = FALSE
Log(e) == hist' = Append(hist, e)
Act == \/ \E h \in H, k \in Keys, how \in {"sign", "foreign"} :
             /\ Log(<<how, h, k>>) /\ certs' = [certs EXCEPT ![h].s = Sig(certs[h], k)]
             /\ made' = made \cup {<<k, certs[h].k, certs[h].v>>}
       \/ \E h \in H, f \in 1..NFields : /\ Log(<<"change", h, f>>) /\ UNCHANGED made
             /\ certs' = [certs EXCEPT ![h].v = IF f \in @ THEN @ \ {f} ELSE @ \cup {f}]
       \/ \E h \in H, k \in Keys : k # certs[h].k /\ Log(<<"rekey", h, k>>) /\ UNCHANGED made /\ certs' = [certs EXCEPT ![h].k = k]
       \/ \E h, g \in H : h # g /\ certs[h].s # None /\ Log(<<"move", h, g>>) /\ UNCHANGED made /\ certs' = [certs EXCEPT ![g].s = certs[h].s]
       \/ \E h \in H : certs[h].s # None /\ Log(<<"drop", h, 0>>) /\ UNCHANGED made /\ certs' = [certs EXCEPT ![h].s = None]
       \/ \E h \in H : certs[h].s # None /\ Log(<<"flip", h, 0>>) /\ UNCHANGED made /\ certs' = [certs EXCEPT ![h].s.bad = TRUE]
       \/ \E h \in H, f \in 1..3 : Len(certs) < MaxCerts /\ Log(<<"pass", h, f>>) /\ UNCHANGED made /\ certs' = Append(certs, certs[h])
Next == \/ Len(hist) < MaxLen /\ Act /\ done' = FALSE
        \/ Len(hist) = MaxLen /\ ~done /\ done' = TRUE /\ UNCHANGED <<hist, certs, made>>
Spec == Init /\ [][Next]_<<hist, certs, made, done>>
(* whatever verifies, the holder of the key it names has signed exactly that   *)
Sound == \A h \in H : Ver(certs[h]) => <<certs[h].k, certs[h].k, certs[h].v>> \in made
Emit == done => PrintT("GEN|" \o ToJson(hist))
=============================================================================
