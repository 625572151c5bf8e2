------------------------------ MODULE MCLogic ------------------------------
(* Design check of the three-valued logic: every formula of at most Depth      *)
(* levels under every assignment.                                              *)
EXTENDS FormulaDomain
VARIABLES f, a
AllU == <<"U", "U", "U">>
Init == f \in (IF Deep THEN F3 ELSE F2) /\ a = AllU
Next == a = AllU /\ a' \in Assign3 /\ f' = f
Spec == Init /\ [][Next]_<<f, a>>

D(x) == Decide(BoolTab(x), f).v[2]
(* learning the value of an undefined attribute never reverses a decision      *)
Monotone == D(a) # "U" => \A i \in 1..3 : a[i] = "U" => \A v \in {"T", "F"} : D([a EXCEPT ![i] = v]) = D(a)
Forced == f.c = "BoolOpNode" =>
            LET l == Decide(BoolTab(a), f.k[1]).v[2]
                r == Decide(BoolTab(a), f.k[2]).v[2]
            IN  /\ f.v[2] = "AND" => (D(a) = "F" <=> l = "F" \/ r = "F") /\ (D(a) = "T" <=> l = "T" /\ r = "T")
                /\ f.v[2] = "OR" => (D(a) = "T" <=> l = "T" \/ r = "T") /\ (D(a) = "F" <=> l = "F" /\ r = "F")
Swap == f.c = "BoolOpNode" => Decide(BoolTab(a), [f EXCEPT !.k = <<f.k[2], f.k[1]>>]).v[2] = D(a)
NeverFails == ~Decide(BoolTab(a), f).e
=============================================================================
