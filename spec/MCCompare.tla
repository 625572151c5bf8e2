----------------------------- MODULE MCCompare -----------------------------
(* Design check of the comparisons: every pair of operands.                    *)
EXTENDS EvalDomain
VARIABLES x, y, ph
vars == <<x, y, ph>>
CONSTANT Full         \* all pairs, or those with a usable attribute on the left
All == ConstOps \cup AttOps \cup BadAtts
Init == x \in (IF Full THEN All ELSE AttOps) /\ y = x /\ ph = 0
Next == ph = 0 /\ y' \in All /\ x' = x /\ ph' = 1
Spec == Init /\ [][Next]_vars
V(op, p, q) == Cmp(op, p, q).v[2]
Usable(o) == o.k = "c" \/ o \in AttOps

TruthOnly == \A op \in Relations : Cmp(op, x, y).v[1] = "b" /\ ~Cmp(op, x, y).e
Symmetric == V("=", x, y) = V("=", y, x) /\ V("!=", x, y) = V("!=", y, x)
Negation == V("!=", x, y) = KNot(V("=", x, y))
Mirror == V("<", x, y) = V(">", y, x) /\ V("<=", x, y) = V(">=", y, x)
Ordered == V("<", x, y) # "U" =>
             /\ V("<=", x, y) = KNot(V(">", x, y)) /\ V(">=", x, y) = KNot(V("<", x, y))
             /\ Cardinality({op \in {"<", ">", "="} : V(op, x, y) = "T"}) <= 1
             /\ (x.k = "c" /\ y.k = "c") => Cardinality({op \in {"<", ">", "="} : V(op, x, y) = "T"}) = 1
Inclusion == /\ (V("SUBSET", x, y) = "T" /\ V("SUBSET", y, x) = "T") => V("=", x, y) = "T"
             /\ (V("=", x, y) = "T" /\ V("SUBSET", x, y) # "U") => V("SUBSET", x, y) = "T"
(* unusable attributes leave every comparison undefined and are pointed out    *)
Unusable == (~Usable(x) \/ ~Usable(y)) => \A op \in Relations : V(op, x, y) = "U" /\ Cmp(op, x, y).ap # {}
(* undefined without unusable attributes: operands do not fit, or are UNDEF    *)
Explained == \A op \in Relations :
               (V(op, x, y) = "U" /\ Cmp(op, x, y).ap = {}) =>
                  (Cmp(op, x, y).op \/ x.v = <<"b", "U">> \/ y.v = <<"b", "U">>)
Quiet == \A op \in Relations : V(op, x, y) # "U" => Cmp(op, x, y).ap = {} /\ ~Cmp(op, x, y).op
=============================================================================
