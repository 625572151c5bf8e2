----------------------------- MODULE GenSymbols -----------------------------
(* Histories of one or two attribute tables, to be replayed.  The model's      *)
(* tables go along, so that the design is checked at the same time.            *)
EXTENDS HGPLSymbols, TLC, Json
CONSTANTS MaxLen, NNames, NCats, NVals, NTabs
VARIABLES hist, tabs, done

CatSeq == <<"USR_ATT", "OBJ_ATT", "ENV_ATT", "ADM_ATT", "CON_ATT">>
Names == << <<97>>, <<65>>, <<97, 97>>, <<98>> >>        \* a A aa b
Types == <<"INT", "STRING", "BOOL">>
Val(v) == <<"n", 0, <<v>>, <<>>>>

Init == hist = <<>> /\ tabs = [t \in 1..NTabs |-> <<>>] /\ done = FALSE
Do(op, t, ci, n, v) ==
  LET tab == tabs[t]
      cat == CatSeq[ci]
      i == Find(tab, cat, Names[n])
      new == CASE op = "define" -> Define(tab, [cat |-> cat, name |-> Names[n], ty |-> Types[v], v |-> Val(v)])
               [] op = "set" -> IF i = 0 THEN tab ELSE SetValue(tab, i, Val(v))
               [] op = "switch" -> IF i = 0 THEN tab ELSE SwitchType(tab, i, Types[v])
               [] OTHER -> tab
  IN  /\ hist' = Append(hist, <<op, t, ci, n, v>>)
      /\ tabs' = [tabs EXCEPT ![t] = new]
Next == \/ /\ Len(hist) < MaxLen /\ done' = FALSE
           /\ \E op \in {"define", "set", "switch"}, t \in 1..NTabs, ci \in 1..NCats, n \in 1..NNames, v \in 1..NVals : Do(op, t, ci, n, v)
        \/ Len(hist) = MaxLen /\ ~done /\ done' = TRUE /\ UNCHANGED <<hist, tabs>>
Spec == Init /\ [][Next]_<<hist, tabs, done>>

Cardinality1(S) == \A a, b \in S : a = b
Unique == \A t \in 1..NTabs : OneEach(tabs[t])
Kept == [][\A t \in 1..NTabs : \A i \in 1..Len(tabs[t]) : tabs'[t][i].name = tabs[t][i].name /\ tabs'[t][i].cat = tabs[t][i].cat]_<<hist, tabs, done>>
OneTable == [][Cardinality1({t \in 1..NTabs : tabs'[t] # tabs[t]})]_<<hist, tabs, done>>
Emit == done => PrintT("GEN|" \o ToJson(hist))
=============================================================================
