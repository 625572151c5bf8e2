------------------------------ MODULE MCTypes ------------------------------
(* Design check of the type checker over sequences of comparisons.             *)
EXTENDS HGPLTypes, FiniteSets, TLC
CONSTANT MaxLen
VARIABLE cmps            \* sequence of <<left, op, right>>, as written
Consts == {"1", "2.5", "\"a\"", "NULL", "{1}"}
AttsW == {"user.a", "user.b"}
OpsW == {"=", "<", "IN", "SUBSET"}
Start == cmps = <<>>
CmpSet == {x \in (AttsW \X OpsW \X (Consts \cup AttsW)) \cup (Consts \X {"="} \X AttsW) : TRUE}
Next == Len(cmps) < MaxLen /\ \E x \in CmpSet : cmps' = Append(cmps, x)
Spec == Start /\ [][Next]_cmps

OperN(w, pos) == CASE w = "1" -> [c |-> "IntValNode", t |-> "INT", p |-> pos, v |-> <<"n", 0, <<1>>, <<>>>>, k |-> <<>>]
                   [] w = "2.5" -> [c |-> "FloatValNode", t |-> "FLOAT", p |-> pos, v |-> <<"n", 0, <<2>>, <<5>>>>, k |-> <<>>]
                   [] w = "\"a\"" -> [c |-> "StringValNode", t |-> "STRING", p |-> pos, v |-> <<"s", <<97>>>>, k |-> <<>>]
                   [] w = "NULL" -> [c |-> "NullValNode", t |-> "NULL", p |-> pos, v |-> <<"w", "NULL">>, k |-> <<>>]
                   [] w = "{1}" -> [c |-> "SetNode", t |-> "LSET", p |-> pos, v |-> <<"-">>, k |-> <<>>]
                   [] w = "user.a" -> [c |-> "UsrAttNode", t |-> "USR_ATT", p |-> pos, v |-> <<"id", <<97>>>>, k |-> <<>>]
                   [] w = "user.b" -> [c |-> "UsrAttNode", t |-> "USR_ATT", p |-> pos, v |-> <<"id", <<98>>>>, k |-> <<>>]
CmpN(x, i) == [c |-> "OpNode", t |-> "OP", p |-> 10 * i + 5, v |-> <<"w", x[2]>>, k |-> <<OperN(x[1], 10 * i), OperN(x[3], 10 * i + 8)>>]
RECURSIVE Join(_)
Join(n) == IF n = 1 THEN CmpN(cmps[1], 1)
           ELSE [c |-> "BoolOpNode", t |-> "BOOL_OP", p |-> 10 * n, v |-> <<"w", "AND">>, k |-> <<Join(n - 1), CmpN(cmps[n], n)>>]
Res(n) == TypeCheck(Join(n))
TypeOf(n, name) == LET r == Res(n).tab
                       i == Find(r, "USR_ATT", name)
                   IN  IF i = 0 THEN "-" ELSE r[i].ty

(* what has been found stays: issues and types only grow with the policy       *)
Grows == Len(cmps) > 1 => /\ Res(Len(cmps) - 1).iss \subseteq Res(Len(cmps)).iss
                          /\ \A nm \in {<<97>>, <<98>>} : TypeOf(Len(cmps) - 1, nm) \notin {"-", "UNKNOWN"} =>
                               TypeOf(Len(cmps), nm) = TypeOf(Len(cmps) - 1, nm)
(* every attribute that occurs is listed, once, and no other                   *)
Listed == Len(cmps) > 0 =>
            /\ OneEach(Res(Len(cmps)).tab)
            /\ (Find(Res(Len(cmps)).tab, "USR_ATT", <<97>>) # 0) = (\E i \in 1..Len(cmps) : "user.a" \in {cmps[i][1], cmps[i][3]})
            /\ Len(Res(Len(cmps)).tab) <= 2
(* numbers never conflict with each other                                      *)
NumbersMix == Len(cmps) > 0 /\ (\A i \in 1..Len(cmps) : {cmps[i][1], cmps[i][3]} \subseteq {"1", "2.5", "user.a", "user.b"} /\ cmps[i][2] \in {"=", "<"})
              => Res(Len(cmps)).iss = {}
OnePer == Len(cmps) > 0 => \A i, j \in Res(Len(cmps)).iss : i.p = j.p => i = j
=============================================================================
