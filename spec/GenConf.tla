------------------------------ MODULE GenConf ------------------------------
(* All ways one setting can be present in sections A and B and the default     *)
(* section of both sides: 0 the section does not set it, 1 empty, 2 a value of *)
(* its own; -1 the section itself is missing.  Every one is replayed.          *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLES p, done
Places == {"sA", "sB", "sD", "cA", "cB", "cD"}
Init == p \in [Places -> -1..2] /\ p["sD"] # -1 /\ p["cD"] # -1 /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED p
Spec == Init /\ [][Next]_<<p, done>>
(* what a question must give: the place the value comes from                   *)
From(side, sect) == IF sect # "D" /\ p[side \o sect] > 0 THEN side \o sect ELSE IF p[side \o "D"] > 0 THEN side \o "D" ELSE "builtin"
Sides == \A z \in {"A", "B", "D"} : From("s", z) \in {"sA", "sB", "sD", "builtin"} /\ From("c", z) \in {"cA", "cB", "cD", "builtin"}
Specific == \A a \in {"s", "c"}, z \in {"A", "B"} : p[a \o z] > 0 => From(a, z) = a \o z
Emit == done => PrintT("GEN|" \o ToJson(p))
=============================================================================
