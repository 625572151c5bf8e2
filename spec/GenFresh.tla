------------------------------ MODULE GenFresh ------------------------------
(* Two worlds with the same history.  Draws are any that are free; the bits of *)
(* one are few here.                                                           *)
EXTENDS HGAAFresh, TLC, Json
CONSTANTS MaxLen, Width
VARIABLES hist, s, done
Words == [1..Width -> {0, 1}]
Other == {"second", "restart", "again"}
Init == hist = <<>> /\ s = Fresh /\ done = FALSE
Draw(k) == LET x == CHOOSE w \in Words : Free(s, k, w)
               n == Drawn(s, k, x)
           IN  Drawn(n, k, CHOOSE w \in Words : Free(n, k, w))
Next == \/ Len(hist) < MaxLen /\ done' = FALSE /\ \/ \E k \in Kinds : hist' = Append(hist, k) /\ s' = Draw(k)
                                                  \/ \E o \in Other : hist' = Append(hist, o) /\ s' = s
        \/ Len(hist) = MaxLen /\ ~done /\ done' = TRUE /\ UNCHANGED <<hist, s>>
Spec == Init /\ [][Next]_<<hist, s, done>>
Count(k) == Cardinality({i \in 1..Len(hist) : hist[i] = k})
(* nothing came up twice, in any world                                         *)
Distinct == \A k \in Kinds : Cardinality(s[k].seen) = 2 * Count(k) /\ s[k].n = 2 * Count(k)
Emit == done => PrintT("GEN|" \o ToJson(hist))
=============================================================================
