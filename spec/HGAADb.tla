------------------------------- MODULE HGAADb -------------------------------
(* The databases of the services: several services may share one.  A database  *)
(* is [tables, rows] with rows a set of [t, k, v]: table, key and contents,    *)
(* the latter two numbers, equal for equal ones.                               *)
EXTENDS Integers, Sequences, FiniteSets
Tables == [aauth |-> {"aauth_users", "aauth_attributes", "aauth_attribute_assignments"},
           pauth |-> {"pauth_attribute_authorities", "pauth_attributes", "pauth_policies", "pauth_attribute_certificates",
                      "pauth_attribute_certificate_assignments", "pauth_sessions"}]
Services == {"aauth", "pauth"}
Key(x) == <<x.t, x.k>>
Row(g) == [t |-> g.t, k |-> g.k, v |-> g.v]
Without(rows, svc) == {x \in rows : x.t \notin Tables[svc]}
(* all of given (a sequence of [t, k, v, bad]) can be added                    *)
CanAdd(d, rows, given) ==
  /\ \A i \in 1..Len(given) : ~given[i].bad /\ given[i].t \in d.tables
  /\ \A i, j \in 1..Len(given) : i # j => Key(given[i]) # Key(given[j])
  /\ \A i \in 1..Len(given) : \A x \in rows : Key(x) # Key(given[i])
(* populating the database d of service svc                                    *)
Can(d, svc, given, wipe) == (wipe => Tables[svc] \subseteq d.tables) /\ CanAdd(d, IF wipe THEN Without(d.rows, svc) ELSE d.rows, given)
Populated(d, svc, given, wipe) == [d EXCEPT !.rows = (IF wipe THEN Without(@, svc) ELSE @) \cup {Row(given[i]) : i \in 1..Len(given)}]
(* what a failed attempt may leave: everything, or, if it was to wipe, what is *)
(* not the service's                                                           *)
Failed(d, svc, wipe) == {d} \cup (IF wipe THEN {[d EXCEPT !.rows = Without(@, svc)]} ELSE {})
=============================================================================
