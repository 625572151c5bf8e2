------------------------------ MODULE HGAAConn ------------------------------
(* The database a service is configured for: kind, place and account come from *)
(* the settings of its section, each character as it is written there.  A      *)
(* setting that is empty or missing is left out of the connection.             *)
EXTENDS HGAAConf

Of(c, n, sect) == Lookup(c, N(n), TRUE, sect)
Given(v) == IF v = <<>> THEN <<>> ELSE IF v[1] = <<>> THEN <<>> ELSE v
Kind(c, sect) == LET k == Up(Of(c, "DB_TYPE", sect)[1])
                 IN  IF k = N("MYSQL") THEN "mysql" ELSE IF k = N("SQLITE") THEN "sqlite" ELSE IF k = N("MEMORY") THEN "memory" ELSE "none"
Nowhere == [kind |-> "none", user |-> <<>>, pass |-> <<>>, host |-> <<>>, port |-> <<>>, db |-> <<>>]
Connection(c, sect) ==
  LET k == Kind(c, sect)
  IN  IF k = "mysql" THEN [kind |-> k, user |-> Given(Of(c, "DB_USER", sect)), pass |-> Given(Of(c, "DB_PASS", sect)), host |-> Given(Of(c, "DB_HOST", sect)),
                           port |-> Given(Of(c, "DB_PORT", sect)), db |-> Given(Of(c, "DB_NAME", sect))]
      ELSE IF k = "sqlite" THEN [Nowhere EXCEPT !.kind = k, !.db = <<Of(c, "DB_NAME", sect)[1] \o N(".db")>>]
      ELSE [Nowhere EXCEPT !.kind = k]
=============================================================================
