------------------------------ MODULE HGAALog ------------------------------
(* Where log records go.  The loggers form a tree by their dotted names below  *)
(* "hgaa"; those of the SQL and the web layer hang below it as well.  Each is  *)
(* set up from a section of the configuration with a level, at most one file   *)
(* and possibly the console.  A record is written by all handlers from its     *)
(* logger upwards, in the format of each, if its level reaches the first level *)
(* set from its logger upwards (WARNING if none is).                           *)
(* A logger is [name, level, hs, up]; a handler [file, fmt, date], with file   *)
(* <<>> the console; up is <<>> or <<name>>, a parent other than by name.      *)
EXTENDS HGAAConf, FiniteSets

Root == N("hgaa")
Dot == N(".")
No_(v) == Up(v) \in {<<>>, N("NONE"), N("FALSE")}
Yes(v) == Up(v) = N("TRUE")
LevelOf(v) ==
  LET u == Up(v)
  IN  IF u \in {N("ALL"), N("DEBUG")} THEN 10 ELSE IF u \in {N("INFO"), N("INFORMATION")} THEN 20 ELSE IF u \in {N("WARN"), N("WARNING")} THEN 30
      ELSE IF u = N("ERROR") THEN 40 ELSE IF u = N("CRITICAL") THEN 50 ELSE 0
LevelName(n) == IF n = 10 THEN N("DEBUG") ELSE IF n = 20 THEN N("INFO") ELSE IF n = 30 THEN N("WARNING") ELSE IF n = 40 THEN N("ERROR") ELSE N("CRITICAL")

Prefix(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
Below(p, s) == Prefix(p \o Dot, s)

(* settings of a logger: from section sect; pre is "SQL_" for the SQL log      *)
Setting(c, pre, n, service, sect) == Lookup(c, N(pre \o n), service, sect)[1]
Handlers(c, pre, service, sect) ==
  LET fmt == Setting(c, pre, "LOG_FORMAT", service, sect)
      date == Setting(c, pre, "LOG_DATE_FORMAT", service, sect)
      file == Setting(c, pre, "LOG_FILE", service, sect)
  IN  (IF No_(file) THEN <<>> ELSE <<[file |-> file, fmt |-> fmt, date |-> date]>>)
      \o (IF Yes(Setting(c, pre, "LOG_STDOUT", service, sect)) THEN <<[file |-> <<>>, fmt |-> fmt, date |-> date]>> ELSE <<>>)

Place(ls, name) == {i \in 1..Len(ls) : ls[i].name = name}
Cleans(c, service, sect) == Yes(Setting(c, "", "CLEAN_LOG_ON_START", service, sect))

(* s: [c, ls, kept]; kept: files that still have what was in them before       *)
Opened(s, hs, clean) == IF clean THEN s.kept \ {hs[i].file : i \in 1..Len(hs)} ELSE s.kept
With(s, name, level, hs, up, clean) ==
  LET at == Place(s.ls, name)
      ls == IF at = {} THEN Append(s.ls, [name |-> name, level |-> level, hs |-> hs, up |-> up])
            ELSE [i \in 1..Len(s.ls) |-> IF i \in at THEN [s.ls[i] EXCEPT !.level = level, !.hs = @ \o hs] ELSE s.ls[i]]
  IN  [s EXCEPT !.ls = ls, !.kept = Opened(s, hs, clean)]
Made(s, parent, service, sect) ==
  With(s, parent \o Dot \o Setting(s.c, "", "LOG_NAME", service, sect), LevelOf(Setting(s.c, "", "LOG_LEVEL", service, sect)),
       Handlers(s.c, "", service, sect), <<>>, Cleans(s.c, service, sect))
Top(c, service) == Root \o Dot \o Setting(c, "", "LOG_NAME", service, Default)

Started(c, files) ==
  LET s0 == [c |-> c, kept |-> files, ls |-> <<[name |-> Root, level |-> 0, hs |-> <<>>, up |-> <<>>]>>]
      s1 == Made(s0, Root, TRUE, Default)
      s2 == Made(s1, Root, FALSE, Default)
      s3 == With(s2, N("sqlalchemy"), LevelOf(Setting(c, "SQL_", "LOG_LEVEL", TRUE, Default)), Handlers(c, "SQL_", TRUE, Default), <<Root>>, Cleans(c, TRUE, Default))
  IN  With(s3, N("ladonlogger"), LevelOf(Setting(c, "", "LOG_LEVEL", TRUE, N("LADON"))), Handlers(c, "", TRUE, N("LADON")), <<Root>>, Cleans(c, TRUE, Default))

(* the loggers from a name upwards                                             *)
RECURSIVE Chain(_, _)
Chain(ls, name) ==
  LET me == Place(ls, name)
      up == IF me # {} /\ ls[CHOOSE i \in me : TRUE].up # <<>> THEN {ls[CHOOSE i \in me : TRUE].up[1]}
            ELSE {ls[i].name : i \in {j \in 1..Len(ls) : Below(ls[j].name, name)}}
      next == IF up = {} THEN <<>> ELSE LET n == CHOOSE a \in up : \A b \in up : Len(b) <= Len(a) IN Chain(ls, n)
  IN  (IF me = {} THEN <<>> ELSE <<ls[CHOOSE i \in me : TRUE]>>) \o next
RECURSIVE Effective(_)
Effective(ch) == IF ch = <<>> THEN 30 ELSE IF ch[1].level # 0 THEN ch[1].level ELSE Effective(Tail(ch))
RECURSIVE AllHandlers(_)
AllHandlers(ch) == IF ch = <<>> THEN <<>> ELSE ch[1].hs \o AllHandlers(Tail(ch))

RECURSIVE Line(_, _, _)
Line(fmt, date, r) ==
  IF fmt = <<>> THEN <<>>
  ELSE LET parts == <<[t |-> N("%(asctime)s"), v |-> date], [t |-> N("%(levelname)s"), v |-> LevelName(r.level)], [t |-> N("%(name)s"), v |-> r.name], [t |-> N("%(message)s"), v |-> r.msg]>>
           at == {i \in 1..4 : Prefix(parts[i].t, fmt)}
       IN  IF at = {} THEN <<fmt[1]>> \o Line(Tail(fmt), date, r)
           ELSE LET p == parts[CHOOSE i \in at : TRUE] IN p.v \o Line(SubSeq(fmt, Len(p.t) + 1, Len(fmt)), date, r)

(* r: [name, level, msg]: what is written where, as a sequence of [at, line]   *)
Written(s, r) ==
  LET ch == Chain(s.ls, r.name)
      hs == AllHandlers(ch)
  IN  IF r.level < Effective(ch) THEN <<>> ELSE [i \in 1..Len(hs) |-> [at |-> hs[i].file, line |-> Line(hs[i].fmt, hs[i].date, r)]]
=============================================================================
