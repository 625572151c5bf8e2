------------------------------ MODULE GenConn ------------------------------
(* All ways the kind of database of two services and the default section can   *)
(* be set, and an account be set in none, one or both places (0 nowhere, 1 by  *)
(* default, 2 in the section, 3 in both).                                      *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLES p, done
Kinds == {"unset", "mysql", "sqlite", "memory", "other"}
Init == p \in [d: Kinds, a: Kinds, b: Kinds, user: 0..3, pass: 0..3] /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED p
Spec == Init /\ [][Next]_<<p, done>>
KindOf(x) == IF p[x] # "unset" THEN p[x] ELSE IF p.d # "unset" THEN p.d ELSE "mysql"
Alone == p.a # "unset" => KindOf("a") = p.a
Shared == p.a = "unset" /\ p.b = "unset" => KindOf("a") = KindOf("b")
Emit == done => PrintT("GEN|" \o ToJson(p))
=============================================================================
