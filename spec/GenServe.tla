------------------------------ MODULE GenServe ------------------------------
(* All ways the two services can be enabled: -1 the section is missing, 0 not  *)
(* set there, 1 enabled, 2 disabled.                                           *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLES p, done
Init == p \in [d: 0..2, a: -1..2, b: -1..2, l: -1..2] /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED p
Spec == Init /\ [][Next]_<<p, done>>
On(x) == IF p[x] > 0 THEN p[x] = 1 ELSE p.d # 2
Own == p.a > 0 => (On("a") <=> p.a = 1)
NotOther == On("a") # On("b") => p.a > 0 \/ p.b > 0
Emit == done => PrintT("GEN|" \o ToJson(p))
=============================================================================
