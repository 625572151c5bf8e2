----------------------------- MODULE GenSecrets -----------------------------
(* Histories of operations on one installation, and what a correct one shows.  *)
EXTENDS HGAASecrets, TLC, Json
CONSTANTS MaxLen
VARIABLES hist, known, done
Init == hist = <<>> /\ known = Nothing /\ done = FALSE
Shows(op) == [o \in Observers |-> Meant(op, o)]
Next == \/ Len(hist) < MaxLen /\ done' = FALSE /\ \E op \in Ops : hist' = Append(hist, op) /\ known' = After(known, op, Shows(op))
        \/ Len(hist) = MaxLen /\ ~done /\ done' = TRUE /\ UNCHANGED <<hist, known>>
Spec == Init /\ [][Next]_<<hist, known, done>>
NoLeak == Kept(known)
Emit == done => PrintT("GEN|" \o ToJson(hist))
=============================================================================
