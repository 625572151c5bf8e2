----------------------------- MODULE GenClient -----------------------------
(* A client, the replies it gets and the key it remembers, in the small.  Its  *)
(* histories are replayed into the implementation.                             *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxLen, Side
VARIABLES last, addr, results, hist, done
vars == <<last, addr, results, hist, done>>

(* ok; fault with and without success status; success status without result;   *)
(* result without success status; the call itself fails; a fault and a result  *)
Replies == {"ok", "fault", "badfault", "empty", "bad", "error", "both"}
Keys == {0, 1, 2}                  \* 0: one is made
Init == last = -1 /\ addr = 0 /\ results = <<>> /\ hist = <<>> /\ done = FALSE
Log(e) == hist' = Append(hist, e)
Ask(k, r) == /\ Log(<<"attribute_request", k, r>>)
             /\ IF r = "ok" THEN last' = k /\ results' = Append(results, r) ELSE UNCHANGED <<last, results>>
             /\ UNCHANGED addr
Other(m, r) == Log(<<m, 0, r>>) /\ results' = (IF r = "ok" THEN Append(results, r) ELSE results) /\ UNCHANGED <<last, addr>>
Move(a) == Log(<<"update", a, "">>) /\ addr' = (IF a > 0 THEN a ELSE addr) /\ UNCHANGED <<last, results>>     \* -1: refused, 0: the same again
Next == \/ /\ Len(hist) < MaxLen /\ done' = FALSE
           /\ \/ Side = "aa" /\ \E k \in Keys, r \in Replies : Ask(k, r)
              \/ \E r \in Replies \ {"both"} : Other("info", r)
              \/ Side = "pa" /\ \E r \in Replies \ {"both"}, m \in {"trusted", "session"} : Other(m, r)
              \/ \E a \in -1..2 : Move(a)
        \/ Len(hist) = MaxLen /\ ~done /\ done' = TRUE /\ UNCHANGED <<last, addr, results, hist>>
Spec == Init /\ [][Next]_vars
OnlyGood == \A i \in 1..Len(results) : results[i] = "ok"
Remembers == LET good == {i \in 1..Len(hist) : hist[i][1] = "attribute_request" /\ hist[i][3] = "ok"}
             IN  IF good = {} THEN last = -1 ELSE last = hist[CHOOSE i \in good : \A j \in good : j <= i][2]
Emit == done => PrintT("GEN|" \o ToJson(hist))
=============================================================================
