---------------------------- MODULE HGPLSymbols ----------------------------
(* Attribute tables.  A table is a sequence of entries                         *)
(*   [cat |-> category, name |-> lower case code points, ty |-> type, v |-> value] *)
(* in the order of their definition, at most one per category and name.        *)
(* Values: <<"n", s, I, F>> number, <<"s", codes>> text, <<"b", "T"|"F"|"U">>   *)
(* truth value, <<"z">> NULL, <<"L", atoms>> list or set, <<"none">> no value, *)
(* <<"?", what>> anything the language does not know.                          *)
EXTENDS Integers, Sequences

Cats == {"USR_ATT", "OBJ_ATT", "ENV_ATT", "ADM_ATT", "CON_ATT"}
LowC(c) == IF c \in 65..90 THEN c + 32 ELSE c
Low(s) == [i \in 1..Len(s) |-> LowC(s[i])]

RECURSIVE FindFrom(_, _, _, _)
FindFrom(tab, cat, name, i) ==
  IF i > Len(tab) THEN 0
  ELSE IF tab[i].cat = cat /\ tab[i].name = name THEN i ELSE FindFrom(tab, cat, name, i + 1)
Find(tab, cat, name) == FindFrom(tab, cat, Low(name), 1)

Entry(e) == [cat |-> e.cat, name |-> Low(e.name), ty |-> e.ty, v |-> e.v]
Defines(tab, e) == Find(tab, e.cat, e.name) = 0
Define(tab, e) == IF Defines(tab, e) THEN Append(tab, Entry(e)) ELSE tab

RECURSIVE DefineAll(_, _)
DefineAll(tab, es) == IF es = <<>> THEN tab ELSE DefineAll(Define(tab, Head(es)), Tail(es))
Table(es) == DefineAll(<<>>, es)

SetValue(tab, i, v) == [tab EXCEPT ![i].v = v]
SwitchType(tab, i, ty) == [tab EXCEPT ![i].ty = ty]

OneEach(tab) == \A i, j \in 1..Len(tab) : (tab[i].cat = tab[j].cat /\ tab[i].name = tab[j].name) => i = j

(* what a table holds, in no particular order; lists stand for sets            *)
Elems(s) == {s[i] : i \in 1..Len(s)}
Content(tab) == {[cat |-> tab[i].cat, name |-> tab[i].name, ty |-> tab[i].ty,
                  v |-> IF tab[i].v[1] = "L" THEN <<"S", Elems(tab[i].v[2])>> ELSE tab[i].v] : i \in 1..Len(tab)}
SameTable(a, b) == Len(a) = Len(b) /\ Content(a) = Content(b)
=============================================================================
