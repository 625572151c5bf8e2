----------------------------- MODULE GenHistory -----------------------------
(* Histories of actions on shared policies, evaluators and attribute tables,   *)
(* to be replayed into the implementation.  Every history of MaxLen actions    *)
(* that ends in an evaluation (model checking), or random ones (-simulate).    *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxLen, Interps, Tabs, Atts, Vals, Types, Policies, Long
VARIABLES hist, done

Evals == {<<"eval", i, t, lv>> : i \in 1..Interps, t \in 0..Tabs, lv \in IF Long THEN {"-", "WARN"} ELSE {"-"}}
Changes == {<<"set", t, a, v>> : t \in 1..Tabs, a \in 1..Atts, v \in 1..Vals}
           \cup {<<"switch", t, a, ty>> : t \in 1..Tabs, a \in 1..Atts, ty \in 1..Types}
           \cup (IF Long THEN {<<"define", t, a, v>> : t \in 1..Tabs, a \in 1..Atts, v \in 1..Vals} ELSE {})
Others == {<<x, p, 0, 0>> : x \in (IF Long THEN {"check", "codec", "tree", "interp", "reparse"} ELSE {"check", "codec"}), p \in 1..Policies}
Actions == Evals \cup Changes \cup Others

Init == hist = <<>> /\ done = FALSE
Next == \/ Len(hist) < MaxLen /\ done' = FALSE /\ \E a \in Actions : hist' = Append(hist, a)
        \/ Len(hist) = MaxLen /\ ~done /\ done' = TRUE /\ hist' = hist
Spec == Init /\ [][Next]_<<hist, done>>
Emit == (done /\ (Long \/ hist[MaxLen][1] = "eval")) => PrintT("GEN|" \o ToJson(hist))
=============================================================================
