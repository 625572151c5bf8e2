------------------------------ MODULE GenLog ------------------------------
(* All ways two loggers, one above the other, can be set up: level (0 nothing  *)
(* known), file (0 none, 1 its own, 2 that of the other), console, kept or     *)
(* emptied at the start.  Every one is replayed with a record of each level    *)
(* on each of the two.                                                         *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLES p, done
Levels == {0, 10, 20, 30, 40, 50}
Init == /\ p \in [top: [level: Levels, file: {0, 1}, con: BOOLEAN, clean: BOOLEAN], sub: [level: Levels, file: {0, 1, 2}, con: BOOLEAN, clean: BOOLEAN]]
        /\ p.sub.file = 2 => p.top.file = 1 /\ ~p.top.clean /\ ~p.sub.clean
        /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED p
Spec == Init /\ [][Next]_<<p, done>>
Eff(x) == IF x = "sub" /\ p.sub.level # 0 THEN p.sub.level ELSE IF p.top.level # 0 THEN p.top.level ELSE 30
(* lines written by a record of level n on x                                   *)
B(b) == IF b THEN 1 ELSE 0
Own(x) == B(p[x].file # 0) + B(p[x].con)
Count(x, n) == IF n < Eff(x) THEN 0 ELSE Own("top") + (IF x = "sub" THEN Own("sub") ELSE 0)
(* a more severe record is never written less often; the one below is written  *)
(* at least wherever the one above would be, given the same threshold          *)
Severity == \A x \in {"top", "sub"}, a, b \in Levels : a <= b => Count(x, a) <= Count(x, b)
Upwards == \A n \in Levels : p.sub.level = 0 => Count("sub", n) >= Count("top", n)
Emit == done => PrintT("GEN|" \o ToJson(p))
=============================================================================
