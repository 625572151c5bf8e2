----------------------------- MODULE HGPLTypes -----------------------------
(* The type checker: walks the tree, operands before operators and left before *)
(* right, keeps the type each attribute got so far, and notes at most one      *)
(* issue per comparison: [ty |-> "ERROR" | "WARN", p |-> position of operator].*)
EXTENDS HGPLGrammar, HGPLSymbols

ConstType(t) == CASE t = "INT" -> "INT" [] t = "FLOAT" -> "FLOAT" [] t = "STRING" -> "STRING"
                  [] t = "LSET" -> "SET" [] t = "NULL" -> "UNKNOWN"
IsAtt(n) == n.t \in AttKinds
NumTy(a, b) == a \in {"INT", "FLOAT"} /\ b \in {"INT", "FLOAT"}

Noted(s, sev, p) == [s EXCEPT !.iss = @ \cup {[ty |-> sev, p |-> p]}]

AttCheck(s, n) ==
  LET a == n.k[1]
      b == n.k[2]
      ia == Find(s.tab, a.t, a.v[2])
      ib == Find(s.tab, b.t, b.v[2])
      meet(i, ty) == IF s.tab[i].ty = "UNKNOWN" THEN [s EXCEPT !.tab = SwitchType(@, i, ty)]
                     ELSE IF s.tab[i].ty # ty /\ ~NumTy(s.tab[i].ty, ty) THEN Noted(s, "WARN", n.p)
                     ELSE s
  IN  IF IsAtt(a) /\ IsAtt(b)
      THEN IF s.tab[ia].ty = "UNKNOWN" THEN [s EXCEPT !.tab = SwitchType(@, ia, s.tab[ib].ty)]
           ELSE meet(ib, s.tab[ia].ty)
      ELSE IF IsAtt(a) THEN meet(ia, ConstType(b.t))
      ELSE meet(ib, ConstType(a.t))

OpCheck(s, n) ==
  LET a == n.k[1].t
      b == n.k[2].t
      has(t) == a = t \/ b = t
      one(t) == (a = t) # (b = t)
      att == IsAtt(n.k[1]) \/ IsAtt(n.k[2])
      err == Noted(s, "ERROR", n.p)
      op == n.v[2]
  IN  CASE op \in {"<", ">", "<=", ">="} ->
             IF has("STRING") \/ has("NULL") THEN err
             ELSE IF att THEN AttCheck(s, n)
             ELSE IF has("LSET") THEN err ELSE s
        [] op \in {"=", "!="} ->
             IF att THEN AttCheck(s, n)
             ELSE IF one("NULL") \/ one("STRING") \/ one("LSET") THEN err ELSE s
        [] op = "IN" -> IF a = "LSET" \/ b \in AtomKinds THEN err ELSE s
        [] op = "SUBSET" -> IF a \in AtomKinds \/ b \in AtomKinds THEN err ELSE s

RECURSIVE Scan(_, _), ScanAll(_, _)
ScanAll(s, ks) == IF ks = <<>> THEN s ELSE ScanAll(Scan(s, Head(ks)), Tail(ks))
Scan(s, n) ==
  LET t == ScanAll(s, n.k)
  IN  IF IsAtt(n) THEN [t EXCEPT !.tab = Define(@, [cat |-> n.t, name |-> n.v[2], ty |-> "UNKNOWN", v |-> <<"none">>])]
      ELSE IF n.c = "OpNode" THEN OpCheck(t, n)
      ELSE t

TypeCheck(tree) == Scan([tab |-> <<>>, iss |-> {}], tree)
Worst(iss) == IF iss = {} THEN "PASS" ELSE IF \E i \in iss : i.ty = "ERROR" THEN "ERROR" ELSE "WARN"
LevelNo(l) == CASE l = "CRIT" -> 4 [] l = "ERROR" -> 3 [] l = "WARN" -> 2 [] l = "INFO" -> 1 [] l = "NONE" -> 0
=============================================================================
