------------------------------ MODULE GenLogic ------------------------------
EXTENDS FormulaDomain, Json
VARIABLES f
Init == f \in (IF Deep THEN F2 \cup F3 ELSE F1 \cup F2)
Next == FALSE /\ UNCHANGED f
Spec == Init /\ [][Next]_f
Emit == PrintT("GEN|" \o ToJson(f))
=============================================================================
