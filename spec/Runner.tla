------------------------------- MODULE Runner -------------------------------
(* Checks recorded executions of the implementation against a specification.   *)
(* The trace file has one case per line, [ev |-> sequence of events, ...].     *)
(* CaseInit gives the model state before the first event of a case, and        *)
(* Step(case, state, event) what the specification makes of one event:         *)
(*   [ok |-> TRUE, st |-> next model state]  the event is a step of the model  *)
(*   [ok |-> FALSE, why |-> ...]             it is not                         *)
(* A rejected event is printed, and checking goes on with the next case, so    *)
(* that one defect does not hide another.  Every event is one TLC step; the    *)
(* number of distinct states tells that none has been left out.                *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Cases, CaseInit(_), Step(_, _, _)
VARIABLES c, l, st

N == Len(Cases)
Shards == IF N < 64 THEN N ELSE 64

Start(i) == IF i <= N THEN CaseInit(Cases[i]) ELSE <<>>

RunInit == /\ c \in 1..Shards
           /\ l = 1
           /\ st = Start(c)

NextCase == c' = c + Shards /\ l' = 1 /\ st' = Start(c + Shards)

RunNext == /\ c <= N
           /\ IF l > Len(Cases[c].ev) THEN NextCase
              ELSE LET r == Step(Cases[c], st, Cases[c].ev[l])
                   IN  IF r.ok
                       THEN c' = c /\ l' = l + 1 /\ st' = r.st
                       ELSE /\ PrintT("BAD|" \o ToJson([c |-> c, l |-> l, why |-> r.why]))
                            /\ NextCase

RunSpec == RunInit /\ [][RunNext]_<<c, l, st>>
=============================================================================
