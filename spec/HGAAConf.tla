------------------------------ MODULE HGAAConf ------------------------------
(* Settings: looked up in the section asked for, then in the default section   *)
(* of the same configuration, then among the built-in defaults of that side.   *)
(* A configuration is a sequence of [sect, name, val]; names are in capitals.  *)
(* A value is <<v>> with v a sequence of character codes, none is <<>>.        *)
EXTENDS Names, Integers, Sequences

Capital(x) == IF x >= 97 /\ x <= 122 THEN x - 32 ELSE x
Up(s) == [i \in 1..Len(s) |-> Capital(s[i])]

Default == N("DEFAULT")
SetIn(conf, sect, name) == {i \in 1..Len(conf) : conf[i].sect = sect /\ conf[i].name = name}
ValueIn(conf, sect, name) == <<conf[CHOOSE i \in SetIn(conf, sect, name) : TRUE].val>>

LogFormat == N("%(asctime)s: [%(levelname)s: %(name)s] %(message)s")
LogDate == N("%m/%d/%Y %I:%M:%S %p")
B(n, v) == [n |-> N(n), v |-> <<v>>]
ServiceDefaults == <<B("DB_TYPE", N("mysql")), B("DB_NAME", N("hgaa")), B("DB_PORT", N("3306")), B("DB_HOST", N("localhost")), B("LOG_LEVEL", N("ALL")),
  B("LOG_FILE", N("hgaa_service.log")), B("LOG_FORMAT", LogFormat), B("LOG_DATE_FORMAT", LogDate), B("LOG_NAME", N("services")), B("LOG_STDOUT", N("True")),
  B("SQL_LOG_LEVEL", N("ALL")), B("SQL_LOG_FILE", N("sql.log")), B("SQL_LOG_FORMAT", LogFormat), B("SQL_LOG_DATE_FORMAT", LogDate), B("SQL_LOG_STDOUT", N("True")),
  B("CLEAN_LOG_ON_START", N("True")), B("SERVICE_ENABLED", N("True")), B("SERVICE_PORT", N("8888")), B("SERVICE_HOST", <<>>)>>
ClientDefaults == <<B("LOG_LEVEL", N("ALL")), B("LOG_FILE", N("hgaa_client.log")), B("LOG_FORMAT", LogFormat), B("LOG_DATE_FORMAT", LogDate), B("LOG_NAME", N("clients")),
  B("LOG_STDOUT", N("True")), B("CLEAN_LOG_ON_START", N("False"))>>
BuiltIn(d, name) == LET f == {i \in 1..Len(d) : d[i].n = name} IN IF f = {} THEN <<>> ELSE d[CHOOSE i \in f : TRUE].v

(* c: [service, client], the two configurations                                *)
Lookup(c, name, service, sect) ==
  LET conf == IF service THEN c.service ELSE c.client
      n == Up(name)
      z == Up(sect)
  IN  IF SetIn(conf, z, n) # {} THEN ValueIn(conf, z, n)
      ELSE IF SetIn(conf, Default, n) # {} THEN ValueIn(conf, Default, n)
      ELSE BuiltIn(IF service THEN ServiceDefaults ELSE ClientDefaults, n)
=============================================================================
