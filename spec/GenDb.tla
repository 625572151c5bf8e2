------------------------------- MODULE GenDb -------------------------------
(* Two services, one or two databases, records 1..3 of each; record 3 cannot   *)
(* be added.  Histories of building, populating and wiping are replayed.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxLen
VARIABLES built, rows, hist, done
vars == <<built, rows, hist, done>>
Svc == {"aauth", "pauth"}
Sets == {<<>>, <<1>>, <<2>>, <<1, 2>>, <<1, 3>>, <<3, 2>>, <<1, 1>>}
El(q) == {q[i] : i \in 1..Len(q)}
Good(q) == 3 \notin El(q) /\ Cardinality(El(q)) = Len(q)
Init == built = {} /\ rows = [x \in Svc |-> {}] /\ hist = <<>> /\ done = FALSE
Log(e) == hist' = Append(hist, e)
Build(x) == Log(<<"build", x, <<>>, 0>>) /\ built' = built \cup {x} /\ UNCHANGED rows
Populate(x, q, w) == /\ Log(<<"populate", x, q, w>>)
                     /\ LET base == IF w = 1 THEN {} ELSE rows[x]
                        IN  rows' = IF x \in built /\ Good(q) /\ El(q) \cap base = {} THEN [rows EXCEPT ![x] = base \cup El(q)]
                                    ELSE IF x \in built /\ w = 1 THEN [rows EXCEPT ![x] = {}] ELSE rows
                     /\ UNCHANGED built
Fail(x, q, w, n) == Log(<<"fail", x, q, w + 2 * n>>) /\ UNCHANGED <<built, rows>>
Next == \/ /\ Len(hist) < MaxLen /\ done' = FALSE
           /\ \/ \E x \in Svc : Build(x)
              \/ \E x \in Svc, q \in Sets, w \in 0..1 : Populate(x, q, w)
              \/ hist # <<>> /\ \E x \in Svc, w \in 0..1, n \in 1..4 : Fail(x, <<1, 2>>, w, n)
        \/ Len(hist) = MaxLen /\ ~done /\ done' = TRUE /\ UNCHANGED <<built, rows, hist>>
Spec == Init /\ [][Next]_vars
(* nobody's data is touched by another's operations                            *)
Apart == [][\A x \in Svc : (rows'[x] # rows[x] => hist'[Len(hist')][2] = x)]_vars
NoBad == \A x \in Svc : 3 \notin rows[x]
Emit == done => PrintT("GEN|" \o ToJson(hist))
=============================================================================
